#include "ev.hh"
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "clang_compat.hh"
#include "NDVecArrayStreamer.hh"
#include "DistributedNDVecArray.hh"
#include "GreensFunction.hh"
// Serialization of values and metadata records.  A value is written at an arbitrary position of a stream that goes on behind it,
// read back, and compared bit by bit; the reader must end exactly where the writer ended.
namespace {
  using stor::Traits;
#ifdef EV_VERIFY
  constexpr std::size_t POS = 1ull << 40;
#else
  constexpr std::size_t POS = 40;
#endif
  struct Bytes { std::uint64_t v = 0; unsigned b[8]; int n; };
  Bytes bytes(const char* nm, int n) { Bytes r; r.n = n; for(int i = 0; i < n; i++) {
#ifdef EV_VERIFY
      r.b[i] = (unsigned)ev_nat(nm, 0, 255);
#else
      unsigned k = (unsigned)ev_nat(nm, 0, 17); r.b[i] = k < 16 ? k * 17 : k == 16 ? 128 : 127;
#endif
      r.v = r.v * 256 + r.b[i]; } return r; }
  std::uint64_t u64(const char* nm) { return bytes(nm, 8).v; }
  float f32(const char* nm) { std::uint32_t u = (std::uint32_t)bytes(nm, 4).v; float f; std::memcpy(&f, &u, 4); return f; }
  double f64(const char* nm) { std::uint64_t u = u64(nm); double f; std::memcpy(&f, &u, 8); return f; }
  struct Stream {
    std::iostream* s = ev_stream(); std::size_t p = ev_nat("pos", 0, POS);
    Stream() { ev_stream_start(s, p); }
    template <class T> auto trip(const T& v) {
      Traits<T>::serialize(*s, v);
      std::size_t e = ev_stream_tellp(s);
      Traits<std::uint32_t>::serialize(*s, 0xdeadbeefu);       // more data behind
      ev_stream_rewind(s, p);
      T r = Traits<T>::deserialize(*s);
      ev_check(ev_stream_tellg(s) == e, "the reader consumes exactly the bytes written");
      return r;
    }
    void big_endian(const Bytes& b) { ev_check(ev_stream_tellp(s) >= p + b.n, "the value takes its width"); for(int i = 0; i < b.n; i++) ev_check(ev_stream_byte(s, p + i) == b.b[i], "most significant byte first"); }
  };
  void c_u32() { Stream s; Bytes b = bytes("b", 4); ev_cover("reached"); auto r = s.trip<std::uint32_t>((std::uint32_t)b.v); ev_check(r == b.v, "round trip"); s.big_endian(b); }
  void c_u64() { Stream s; Bytes b = bytes("b", 8); ev_cover("reached"); auto r = s.trip<std::uint64_t>(b.v); ev_check(r == b.v, "round trip"); s.big_endian(b); }
  void c_f32() { Stream s; Bytes b = bytes("b", 4); std::uint32_t u = (std::uint32_t)b.v; float f; std::memcpy(&f, &u, 4); ev_cover("reached"); float r = s.trip<float>(f); ev_check(ev::bits(r) == u, "round trip"); s.big_endian(b); }
  void c_f64() { Stream s; Bytes b = bytes("b", 8); std::uint64_t u = b.v; double f; std::memcpy(&f, &u, 8); ev_cover("reached"); double r = s.trip<double>(f); ev_check(ev::bits(r) == u, "round trip"); s.big_endian(b); }
  template <std::size_t N> void c_array() {
    Stream s; std::array<float, N> a; for(auto& x : a) x = f32("a"); ev_cover("reached");
    auto r = s.trip(a); for(std::size_t i = 0; i < N; i++) ev_check(ev::bits(r[i]) == ev::bits(a[i]), "round trip");
  }
  template <class T, std::size_t N> void c_vector() {
    Stream s; Vector<T, N> a; for(std::size_t i = 0; i < N; i++) { if constexpr(sizeof(T) == 8 && std::is_integral_v<T>) a[i] = u64("a"); else if constexpr(std::is_integral_v<T>) a[i] = (T)bytes("a", 4).v; else if constexpr(sizeof(T) == 4) a[i] = f32("a"); else a[i] = f64("a"); }
    ev_cover("reached");
    Vector<T, N> r = s.trip(a); for(std::size_t i = 0; i < N; i++) { if constexpr(std::is_integral_v<T>) ev_check(r[i] == a[i], "round trip"); else ev_check(ev::bits(r[i]) == ev::bits(a[i]), "round trip"); }
  }
  void c_rzt() {
    Stream s; RZTCoordVector a{f32("a"), f32("a"), f32("a")}; ev_cover("reached");
    RZTCoordVector r = s.trip(a); for(std::size_t i = 0; i < 3; i++) ev_check(ev::bits(r[i]) == ev::bits(a[i]), "round trip");
  }
  template <std::size_t D> Vector<std::size_t, D> ind(const char* nm) { Vector<std::size_t, D> r; for(std::size_t k = 0; k < D; k++) r[k] = u64(nm); return r; }
  template <std::size_t D> void c_stream_meta() {
    using M = stor::NDVecArrayStreamerMetadata<NDVecArray, float, D, 2>;
    Stream s; M m(ind<D>("cs"), ind<D>("sh"), ev_bool("final") ? stor::AccessMode::modification_not_allowed : stor::AccessMode::modification_allowed); ev_cover("reached");
    M r = s.trip(m); for(std::size_t k = 0; k < D; k++) { ev_check(r.ser_chunk_shape[k] == m.ser_chunk_shape[k], "round trip: serialization chunk"); ev_check(r.array_shape[k] == m.array_shape[k], "round trip: array shape"); }
    ev_check(r.access_mode == m.access_mode, "round trip: access mode");
  }
  void c_stream_chunk_meta() {
    using M = stor::NDVecArrayStreamerChunkMetadata;
    Stream s; M m(ev_bool("dense") ? stor::StreamerMode::dense : stor::StreamerMode::null_suppressed, u64("size")); ev_cover("reached");
    M r = s.trip(m); ev_check(r.ser_mode == m.ser_mode, "round trip: mode"); ev_check(r.chunk_size == m.chunk_size, "round trip: size");
  }
  void c_greens_meta() {
    using M = CylindricalGreensFunctionMetadata;
    Stream s; RZTCoordVector a{f32("a"), f32("a"), f32("a")}, b{f32("b"), f32("b"), f32("b")}, c{f32("c"), f32("c"), f32("c")}; M m(a, b, c); ev_cover("reached");
    M r = s.trip(m);
    for(std::size_t i = 0; i < 3; i++) { ev_check(ev::bits(r.start_pos_rzt[i]) == ev::bits(a[i]), "round trip: start"); ev_check(ev::bits(r.end_pos_rzt[i]) == ev::bits(b[i]), "round trip: end"); ev_check(ev::bits(r.sample_interval_rzt[i]) == ev::bits(c[i]), "round trip: interval"); }
    for(std::size_t i = 0; i < 2; i++) { ev_check(ev::bits(r.start_pos_rz[i]) == ev::bits(a[i]), "round trip: start"); ev_check(ev::bits(r.end_pos_rz[i]) == ev::bits(b[i]), "round trip: end"); ev_check(ev::bits(r.sample_interval_rz[i]) == ev::bits(c[i]), "round trip: interval"); }
  }
#ifndef EV_VERIFY
  std::string str(const char* nm, std::size_t lim = 9) { std::size_t n = ev_nat(nm, 0, lim); std::string r; for(std::size_t i = 0; i < n; i++) r.push_back((char)((ev_nat("char", 0, 15) * 17) & 255)); return r; }
  void c_string() { Stream s; std::string a = str("len"); ev_cover("reached"); ev_check(s.trip(a) == a, "round trip"); }
  void c_vec_u64() { Stream s; std::size_t n = ev_nat("n", 0, 9); std::vector<std::uint64_t> a(n); for(auto& x : a) x = u64("a"); ev_cover("reached"); ev_check(s.trip(a) == a, "round trip"); }
  void c_vec_f64() { Stream s; std::size_t n = ev_nat("n", 0, 9); std::vector<double> a(n); for(auto& x : a) x = f64("a"); ev_cover("reached"); auto r = s.trip(a); ev_check(r.size() == n, "round trip"); for(std::size_t i = 0; i < n; i++) ev_check(ev::bits(r[i]) == ev::bits(a[i]), "round trip"); }
  void c_vec_f32(bool blocks) {     // blocked reading and writing; the block size is not part of the format
    Stream s; std::size_t n = blocks ? ev_nat("n", 0, 12) : ev_nat("big", 0, 1) ? 9990 + ev_nat("n", 0, 20) : 19990 + ev_nat("n", 0, 20);
    std::vector<float> a(n); if(blocks) for(auto& x : a) x = f32("a"); else ev_havoc(a.data(), 4 * n, "a");
    ev_cover("reached");
    std::size_t bw = blocks ? ev_nat("bw", 1, 5) : 10000, br = blocks ? ev_nat("br", 1, 5) : 10000;
    Traits<std::vector<float>>::serialize(*s.s, a, bw);
    std::size_t e = ev_stream_tellp(s.s); ev_check(e == s.p + 8 + 4 * n, "a count and the elements");
    for(std::size_t i = 0; i < n; i += blocks ? 1 : 997) for(int k = 0; k < 4; k++) ev_check(ev_stream_byte(s.s, s.p + 8 + 4 * i + k) == ((ev::bits(a[i]) >> (24 - 8 * k)) & 255), "most significant byte first");
    ev_stream_rewind(s.s, s.p);
    auto r = Traits<std::vector<float>>::deserialize(*s.s, br);
    ev_check(ev_stream_tellg(s.s) == e, "the reader consumes exactly the bytes written");
    ev_check(r.size() == n, "round trip"); for(std::size_t i = 0; i < n; i++) ev_check(ev::bits(r[i]) == ev::bits(a[i]), "round trip");
  }
  void c_map() { Stream s; std::map<std::string, std::uint64_t> m; std::size_t n = ev_nat("n", 0, 5); for(std::size_t i = 0; i < n; i++) m[str("key", 3)] = u64("v"); ev_cover("reached"); ev_check(s.trip(m) == m, "round trip"); }
  void c_map2() { Stream s; std::map<std::uint64_t, std::vector<std::string>> m; std::size_t n = ev_nat("n", 0, 4); for(std::size_t i = 0; i < n; i++) { std::vector<std::string> v(ev_nat("m", 0, 3)); for(auto& x : v) x = str("s", 3); m[u64("k")] = v; } ev_cover("reached"); ev_check(s.trip(m) == m, "round trip"); }
  template <std::size_t D> void c_chunk_meta() {
    using M = ChunkMetadata<D>; Stream s; Vector<std::size_t, D> st, sh; for(std::size_t k = 0; k < D; k++) { st[k] = bytes("start", 5).v + (1 << 16); sh[k] = bytes("shape", 5).v; }
    std::size_t ov = ev_nat("overlap", 0, 3), id = bytes("id", 4).v;       // chunk ids below 2^32 (known finding: see known_findings.txt)
    M m(ev_bool("null") ? ChunkType::all_null : ChunkType::specified, str("path"), id, st, sh, ov);
    ev_cover("reached");
    M r = s.trip(m);
    ev_check(r.chunk_type == m.chunk_type, "round trip: type"); ev_check(r.filepath == m.filepath, "round trip: path"); ev_check(r.chunk_id == m.chunk_id, "round trip: id"); ev_check(r.overlap == m.overlap, "round trip: overlap");
    for(std::size_t k = 0; k < D; k++) { ev_check(r.start_ind[k] == st[k], "round trip: start"); ev_check(r.shape[k] == sh[k], "round trip: shape"); ev_check(r.end_ind[k] == st[k] + sh[k], "round trip: end"); ev_check(r.loc_ind_offset[k] == st[k] - ov, "round trip: offset"); }
    ev_check(r.start_pos == m.start_pos, "round trip: position in the file");
  }
  void known_wide_id() {
    using M = ChunkMetadata<2>; Stream s; std::size_t id = (1ull << 32) + ev_nat("id", 0, 5);
    M m(ChunkType::specified, "x", id, {0u, 0u}, {1u, 1u}, 0); ev_check(s.trip(m).chunk_id == id, "round trip: chunk ids of more than 32 bits");
  }
#endif
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(u32, c_u32()) C(u64, c_u64()) C(f32, c_f32()) C(f64, c_f64()) C(array_1, c_array<1>()) C(array_5, c_array<5>())
C(vector_u64_3, (c_vector<std::uint64_t, 3>())) C(vector_u32_2, (c_vector<std::uint32_t, 2>())) C(vector_f32_3, (c_vector<float, 3>())) C(vector_f64_2, (c_vector<double, 2>()))
C(rzt, c_rzt()) C(stream_meta_1, c_stream_meta<1>()) C(stream_meta_3, c_stream_meta<3>()) C(stream_chunk_meta, c_stream_chunk_meta()) C(greens_meta, c_greens_meta())
#ifndef EV_VERIFY
C(string, c_string()) C(vec_u64, c_vec_u64()) C(vec_f64, c_vec_f64()) C(vec_f32, c_vec_f32(true)) C(vec_f32_long, c_vec_f32(false)) C(map, c_map()) C(map2, c_map2()) C(chunk_meta_2, c_chunk_meta<2>()) C(chunk_meta_3, c_chunk_meta<3>())
extern "C" void ev_known_wide_id() { known_wide_id(); }
#endif
