#include "ev.hh"
#include <filesystem>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "clang_compat.hh"
#include "NDVecArrayStreamer.hh"
// Arrays on a file: an abstract array (the concatenation of everything accepted so far) against what the streamer reads back.
#ifndef EV_VERIFY
namespace {
  using stor::StreamerMode; using stor::INFTY;
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  template <std::size_t D> void each(const Ind<D>& s, auto&& f) {
    std::size_t n = 1; for(std::size_t k = 0; k < D; k++) n *= s[k];
    for(std::size_t p = 0; p < n; p++) { Ind<D> i; std::size_t r = p; for(std::size_t k = D; k-- > 0;) { i[k] = r % s[k]; r /= s[k]; } f(i, p); }
  }
  template <class A> auto raw(A& a) { return &*a.data(); }
  template <std::size_t D, std::size_t V> struct World {
    using A = NDVecArray<float, D, V>; using Str = stor::NDVecArrayStreamer<NDVecArray, float, D, V>;
    std::string path; std::fstream f; std::size_t pos; bool views; Str st; A abs; std::size_t salt = 0;
    std::size_t bufsize() { static const std::size_t B[] = {1, 0, 3, 10000}; return B[ev_nat("buf", 0, 3)]; }
    World() : pos(ev_nat("pos", 0, 3) * 3), views(ev_bool("views")), st(bufsize()), abs(Ind<D>(0u)) {
      path = std::string(evn::tmpdir()) + "/a.bin"; std::filesystem::remove(path);
      f.open(path, std::ios::out | std::ios::binary); for(std::size_t i = 0; i < pos; i++) f.put((char)(i + 1)); f.close();
      f.open(path, std::ios::in | std::ios::out | std::ios::binary);
    }
    ~World() { f.close(); std::error_code ec; std::filesystem::remove(path, ec); }
    StreamerMode mode(const char* n) { return ev_bool(n) ? StreamerMode::dense : StreamerMode::null_suppressed; }
    A array(const Ind<D>& s) {    // an array, or a view into a larger one
      Ind<D> lo(0u), ps = s; if(views) { std::size_t w = ev_nat("where", 0, 2); for(std::size_t k = 0; k < D; k++) { lo[k] = (w + k) % 3; ps[k] = lo[k] + s[k] + (w + 2 * k) % 2; } }
      A p(ps); ev_havoc(raw(p), p.GetVolume() * 4, "a");
      salt++; std::mt19937 g(salt * 31 + (std::size_t)(raw(p)[0] * 16)); 
      for(std::size_t i = 0; i < p.GetVolume(); i++) if(g() % 11 == 0) { static const std::uint32_t W[] = {0x7fc00123u, 0xff800000u, 0x00000001u, 0x3f800000u}; std::memcpy(raw(p) + i, &W[g() % 4], 4); } else if(raw(p)[i] == 0.0f) raw(p)[i] = 0.0f;
      if(!views) return p;
      return p.View(lo, lo + s);
    }
    std::string bytes() { f.flush(); std::ifstream in(path, std::ios::binary); return std::string((std::istreambuf_iterator<char>(in)), {}); }
    void concat(const A& a, std::size_t axis, const Ind<D>& s) {
      if(abs.GetNumberElements() == 0) { A r(s); each<D>(s, [&](const Ind<D>& i, std::size_t) { r[i] = a[i]; }); abs = std::move(r); return; }
      Ind<D> n = abs.GetShape(); std::size_t off = n[axis]; n[axis] += s[axis]; A r(n);
      each<D>(n, [&](const Ind<D>& i, std::size_t) { Ind<D> j = i; if(i[axis] < off) r[i] = abs[j]; else { j[axis] -= off; r[i] = a[j]; } }); abs = std::move(r);
    }
    void check() {
      f.clear(); f.seekg(pos); Str other(bufsize()); Str& rd = ev_bool("same") ? st : other;
      Ind<D> was(1u); A b(was); if(ev_bool("sized")) b = A(abs.GetShape()); ev_havoc(raw(b), b.GetVolume() * 4, "b");
      rd.deserialize(f, b);
      ev_check(f.good(), "the stream can be read completely");
      ev_check(b.GetShape() == abs.GetShape(), "same shape");
      each<D>(abs.GetShape(), [&](const Ind<D>& i, std::size_t) { for(std::size_t c = 0; c < V; c++) ev_check(ev::bits((float)b[i][c]) == ev::bits((float)abs[i][c]), "same contents"); });
      f.clear(); f.seekg(0); for(std::size_t i = 0; i < pos; i++) ev_check(f.get() == (int)(i + 1), "data in front of the array is undisturbed");
    }
  };
  // what divides into full serialization chunks
  template <std::size_t D> bool full(const Ind<D>& s, const Ind<D>& c) { for(std::size_t k = 0; k < D; k++) if(c[k] < s[k] && s[k] % c[k]) return false; return true; }
  template <std::size_t D, std::size_t V> void history(std::size_t ext, std::size_t appends, bool anyaxis) {
    World<D, V> w; Ind<D> s, c; std::size_t spec = 0;
    for(std::size_t k = 0; k < D; k++) { s[k] = ev_nat("shape", 1, ext); c[k] = ev_nat("chunk", 0, ext + 1); if(c[k] == 0) c[k] = INFTY; else spec++; }
    auto m = w.mode("dense"); auto a = w.array(s);
    ev_cover("reached");
    std::string before = w.bytes(); bool thrown = false;
    w.f.seekp(w.pos); try { w.st.serialize(w.f, a, c, m); } catch(std::exception&) { thrown = true; }
    ev_check(thrown == (spec == 0), "a serialization chunk without any extent is refused, every other one is accepted");
    if(thrown) { ev_check(w.bytes() == before, "nothing is written on refusal"); return; }
    w.concat(a, 0, s); w.check();
    bool closed = !full<D>(s, c), final = false;
    std::size_t n = ev_nat("appends", 0, appends);
    for(std::size_t i = 0; i < n; i++) {
      if(ev_nat("final", 0, 5) == 5) { w.f.clear(); w.f.seekg(w.pos); w.st.mark_as_final(w.f); final = true; w.check(); ev_cover("marked final"); }
      std::size_t axis = anyaxis ? ev_nat("axis", 0, D - 1) : 0;
      Ind<D> t = w.abs.GetShape(); t[axis] = ev_nat("rows", 1, ext); bool fits = true;
      if(D > 1 && ev_nat("misfit", 0, 6) == 6) { std::size_t k = (axis + 1) % D; t[k] += 1; fits = false; }
      auto b = w.array(t); auto m2 = w.mode("dense"); std::string was = w.bytes(); bool th = false;
      w.f.clear(); w.f.seekg(w.pos);
      try { w.st.append_slice(w.f, b, axis, m2); } catch(std::exception&) { th = true; }
      if(final || closed || !fits) ev_check(th, "appending to a final array, after a partial chunk, or a slice that does not fit is refused");
      // accepted for sure: the chunk extent along the axis divides everything written so far, and the axes in front are in one chunk
      bool clean = !final && !closed && fits; { Ind<D> q = w.abs.GetShape(); if(c[axis] == INFTY || q[axis] % c[axis]) clean = false; for(std::size_t k = 0; k < axis; k++) if(c[k] < q[k]) clean = false; }
      if(clean) ev_check(!th, "a slice behind full serialization chunks is accepted");
      if(th) { ev_check(w.bytes() == was, "nothing is written on refusal"); ev_cover("refused"); }
      else { w.concat(b, axis, t); if(!full<D>(t, c)) closed = true; ev_cover("appended"); }
      w.check();
    }
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(write_1_1, history<1, 1>(9, 0, false)) C(write_2_2, history<2, 2>(5, 0, false)) C(write_3_2, history<3, 2>(3, 0, false)) C(write_3_1, history<3, 1>(4, 0, false))
C(append_1_1, history<1, 1>(6, 5, false)) C(append_1_2, history<1, 2>(4, 4, false)) C(append_2_2, history<2, 2>(4, 4, false)) C(append_3_2, history<3, 2>(3, 3, false)) C(axis_2_1, history<2, 1>(4, 3, true)) C(axis_3_2, history<3, 2>(3, 3, true))
#endif
