#include "ev.hh"
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "NDVecArraySerialization.hh"
// Dense and null-suppressed encodings.
namespace {
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  template <class A> auto* raw(A& a) { return &*a.data(); }
#ifdef EV_VERIFY
  constexpr std::size_t N1 = 1ull << 30;
#else
  constexpr std::size_t N1 = 12;
#endif
  using Buf = std::vector<std::uint32_t>;
  inline std::uint32_t be(float f) { return htonl(ev::bits(f)); }
  // ---- dense, one axis, arbitrary length: word V*W + c holds component c of element W
  template <std::size_t V> void dense_to() {
    std::size_t n = ev_nat("n", 1, N1), w = ev_nat("W", 0, n - 1), c = ev_nat("c", 0, V - 1);
    NDVecArray<float, 1, V> a(Ind<1>{n}); ev_havoc(raw(a), n * V * 4, "a");
    Buf buf(n * V);
    static std::uint32_t want; want = be(a[Ind<1>{w}][c]);
    std::uint32_t* cell = &buf[w * V + c];
#ifdef EV_VERIFY
    ev_witness(cell, 4); ev_witness_src(&want);
#endif
    ev_cover("reached");
    std::size_t len = dense::to_buffer(a, std::span<std::uint32_t>(buf));
    ev_check(len == n * V, "every component takes one word");
    ev_check(*cell == want, "the word holds the component, most significant byte first");
#ifndef EV_VERIFY
    for(std::size_t i = 0; i < n; i++) for(std::size_t k = 0; k < V; k++) ev_check(buf[i * V + k] == be(a[Ind<1>{i}][k]), "the word holds the component, most significant byte first");
#endif
  }
  template <std::size_t V> void dense_from() {
    std::size_t n = ev_nat("n", 1, N1), w = ev_nat("W", 0, n - 1), c = ev_nat("c", 0, V - 1);
    NDVecArray<float, 1, V> a(Ind<1>{n}); Buf buf(n * V); ev_havoc(buf.data(), n * V * 4, "buf");
    static std::uint32_t want; want = ntohl(buf[w * V + c]);
    float* cell = &a[Ind<1>{w}][c];
#ifdef EV_VERIFY
    ev_witness(cell, 4); ev_witness_src(&want);
#endif
    ev_cover("reached");
    std::size_t len = dense::from_buffer(a, std::span<std::uint32_t>(buf));
    ev_check(len == n * V, "every component takes one word");
    ev_check(ev::bits(*cell) == want, "the component is the word, most significant byte first");
  }
  // ---- null suppression: the buffer computed in advance suffices (arbitrary contents and length, one axis)
  template <std::size_t V> void nullsup_fits() {
    std::size_t n = ev_nat("n", 1, N1);
    NDVecArray<float, 1, V> a(Ind<1>{n}); ev_havoc(raw(a), n * V * 4, "a");
    std::size_t cap = nullsup::calculate_required_buflen(a.GetShape(), V);
    ev_check(cap == n * V + (n + 1) / 2, "buffer size: all components, and one count per two elements");
    ev_check(nullsup::calculate_required_buflen(a) == cap, "both ways of computing the buffer size agree");
    Buf buf(cap);
    ev_cover("reached");
    std::size_t len = nullsup::suppress_null(a, std::span<std::uint32_t>(buf));
    ev_check(len <= cap, "the encoding fits its buffer");
  }
  // ---- round trips
  template <class A, class I> bool is_null(A& a, const I& i, std::size_t V) { for(std::size_t k = 0; k < V; k++) if(a[i][k] != 0.0f) return false; return true; }
#ifdef EV_VERIFY
  template <std::size_t V, std::size_t N> void roundtrip_bounded() {   // bounded: N elements, arbitrary contents
    NDVecArray<float, 1, V> a(Ind<1>{N}), b(Ind<1>{N}); ev_havoc(raw(a), N * V * 4, "a"); ev_havoc(raw(b), N * V * 4, "b");
    Buf buf(N * V + (N + 1) / 2); std::size_t c = ev_nat("c", 0, V - 1);
    std::size_t len = nullsup::suppress_null(a, std::span<std::uint32_t>(buf));
    std::size_t used = nullsup::desuppress_null(std::span<std::uint32_t>(buf), b);
    ev_cover("reached");
    ev_check(used == len, "decoding consumes exactly the words that encoding produced");
    for(std::size_t i = 0; i < N; i++) {
      bool z = is_null(a, Ind<1>{i}, V);
      if(z) ev_check(ev::bits(b[Ind<1>{i}][c]) == 0, "a null element decodes as zero"); else ev_check(ev::bits(b[Ind<1>{i}][c]) == ev::bits(a[Ind<1>{i}][c]), "a non-null element decodes bit-exactly");
    }
  }
#else
  template <std::size_t D> void each(const Ind<D>& s, auto&& f) {
    std::size_t n = 1; for(std::size_t k = 0; k < D; k++) n *= s[k];
    for(std::size_t p = 0; p < n; p++) { Ind<D> i; std::size_t r = p; for(std::size_t k = D; k-- > 0;) { i[k] = r % s[k]; r /= s[k]; } f(i, p); }
  }
  float value(std::size_t kind, std::size_t n) {   // contents that matter for the encoding
    static const std::uint32_t b[] = {0, 0x3f800000u + 1, 0, 0x80000000u, 0xc0490fdbu, 0x7f800000u, 0x00800001u, 0x7fc00001u};
    std::uint32_t u = b[(kind * 7 + n * 5 + (n * n) % 3) % 8]; float f; std::memcpy(&f, &u, 4); return f;
  }
  // arrays and views of any dimension, every pattern of null / non-null elements
  template <std::size_t D, std::size_t V> void roundtrip(bool view) {
    constexpr std::size_t LIM = D == 1 ? 12 : D == 2 ? 5 : 3;
    Ind<D> s, ps, lo; for(std::size_t k = 0; k < D; k++) { s[k] = ev_nat("shape", 1, LIM); lo[k] = view ? ev_nat("lo", 0, 2) : 0; ps[k] = lo[k] + s[k] + (view ? ev_nat("pad", 0, 2) : 0); }
    std::size_t n = 1; for(std::size_t k = 0; k < D; k++) n *= s[k];
    NDVecArray<float, D, V> p(ps); ev_havoc(raw(p), p.GetVolume() * 4, "p");
    std::size_t style = ev_nat("style", 0, 3);
    NDVecArray<float, D, V> a = view ? p.View(lo, lo + s) : NDVecArray<float, D, V>(p);
    if(style < 3) each<D>(s, [&](const Ind<D>& i, std::size_t q) { std::size_t m = style == 0 ? ev_nat("null", 0, 1) : style == 1 ? (q % 3 == 0) : 1; for(std::size_t c = 0; c < V; c++) { float f = m ? 0.0f : value(q, c); if(m && q % 5 == 4) f = -0.0f; a[i][c] = f; } });
    bool dn = ev_bool("dense");
    std::size_t cap = dn ? n * V : nullsup::calculate_required_buflen(a);
    ev_check(dn || cap == nullsup::calculate_required_buflen(s, V), "both ways of computing the buffer size agree");
    Buf buf(cap); NDVecArray<float, D, V> b(s); ev_havoc(raw(b), n * V * 4, "b");
    NDVecArray<float, D, V> old(p);
    ev_cover("reached");
    std::size_t len = dn ? dense::to_buffer(a, std::span<std::uint32_t>(buf)) : nullsup::suppress_null(a, std::span<std::uint32_t>(buf));
    ev_check(len <= cap, "the encoding fits its buffer");
    if(dn) { ev_check(len == n * V, "every component takes one word"); each<D>(s, [&](const Ind<D>& i, std::size_t q) { for(std::size_t c = 0; c < V; c++) ev_check(buf[q * V + c] == be(a[i][c]), "the word holds the component, most significant byte first, in row-major order"); }); }
    buf.resize(len); buf.shrink_to_fit();
    std::size_t used = dn ? dense::from_buffer(b, std::span<std::uint32_t>(buf)) : nullsup::desuppress_null(std::span<std::uint32_t>(buf), b);
    ev_check(used == len, "decoding consumes exactly the words that encoding produced");
    each<D>(s, [&](const Ind<D>& i, std::size_t) {
      bool z = is_null(a, i, V);
      for(std::size_t c = 0; c < V; c++) { if(z && !dn) ev_check(ev::bits(b[i][c]) == 0, "a null element decodes as zero"); else ev_check(ev::bits(b[i][c]) == ev::bits(a[i][c]), "a non-null element decodes bit-exactly"); }
    });
    // decoding into a view touches the view only
    if(view) {
      NDVecArray<float, D, V> q(ps); ev_havoc(raw(q), q.GetVolume() * 4, "q"); NDVecArray<float, D, V> q0(q), v = q.View(lo, lo + s);
      if(dn) dense::from_buffer(v, std::span<std::uint32_t>(buf)); else nullsup::desuppress_null(std::span<std::uint32_t>(buf), v);
      each<D>(ps, [&](const Ind<D>& i, std::size_t) { bool in = true; Ind<D> r; for(std::size_t k = 0; k < D; k++) { in = in && i[k] >= lo[k] && i[k] < lo[k] + s[k]; r[k] = i[k] - lo[k]; }
	for(std::size_t c = 0; c < V; c++) ev_check(ev::bits(q[i][c]) == ev::bits(in ? b[r][c] : q0[i][c]), "decoding into a view fills the view and nothing else"); });
    }
  }
#endif
}
extern "C" void ev_contract_dense_to_1() { dense_to<1>(); }
extern "C" void ev_contract_dense_to_2() { dense_to<2>(); }
extern "C" void ev_contract_dense_to_3() { dense_to<3>(); }
extern "C" void ev_contract_dense_from_1() { dense_from<1>(); }
extern "C" void ev_contract_dense_from_2() { dense_from<2>(); }
extern "C" void ev_contract_dense_from_3() { dense_from<3>(); }
extern "C" void ev_contract_nullsup_fits_1() { nullsup_fits<1>(); }
extern "C" void ev_contract_nullsup_fits_2() { nullsup_fits<2>(); }
extern "C" void ev_contract_nullsup_fits_3() { nullsup_fits<3>(); }
#ifdef EV_VERIFY
extern "C" void ev_contract_bounded_roundtrip_1_2() { roundtrip_bounded<1, 2>(); }
extern "C" void ev_contract_bounded_roundtrip_1_3() { roundtrip_bounded<1, 3>(); }
extern "C" void ev_contract_bounded_roundtrip_2_2() { roundtrip_bounded<2, 2>(); }
extern "C" void ev_contract_bounded_roundtrip_2_3() { roundtrip_bounded<2, 3>(); }
#else
extern "C" void ev_contract_roundtrip_1_1() { roundtrip<1, 1>(false); }
extern "C" void ev_contract_roundtrip_1_2() { roundtrip<1, 2>(true); }
extern "C" void ev_contract_roundtrip_2_2() { roundtrip<2, 2>(false); }
extern "C" void ev_contract_roundtrip_2_1() { roundtrip<2, 1>(true); }
extern "C" void ev_contract_roundtrip_3_2() { roundtrip<3, 2>(true); }
extern "C" void ev_contract_roundtrip_3_3() { roundtrip<3, 3>(false); }
#endif
