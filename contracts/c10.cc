#include "ev.hh"
#include <filesystem>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "clang_compat.hh"
#include "DistributedNDVecArray.hh"
// The distributed array against a map from index to value, over arbitrary histories of its public operations.
#ifndef EV_VERIFY
namespace fs = std::filesystem;
namespace {
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  template <std::size_t D> std::array<std::size_t, D> key(const Ind<D>& i) { std::array<std::size_t, D> a; for(std::size_t k = 0; k < D; k++) a[k] = i[k]; return a; }
  template <std::size_t D> bool each(const Ind<D>& a, const Ind<D>& b, auto&& f) { Ind<D> i = a; for(std::size_t k = 0; k < D; k++) if(a[k] >= b[k]) return true; while(true) { f(i); std::size_t k = D; while(k > 0 && ++i[k - 1] == b[k - 1]) { i[k - 1] = a[k - 1]; k--; } if(k == 0) return true; } }
  template <std::size_t D, std::size_t V> struct World {
    using A = NDVecArray<float, D, V>; using Arr = DistributedNDVecArray<NDVecArray, float, D, V>;
    using Val = std::array<float, V>;
    struct Box { Ind<D> a, b; std::size_t overlap; bool null; };
    std::mt19937_64 g; std::string root; std::size_t dirno = 0; fs::path dir; Ind<D> sc; std::size_t rows; std::unique_ptr<Arr> arr;
    std::map<std::array<std::size_t, D>, Val> m; std::vector<Box> boxes; std::size_t ext;
    std::size_t r(std::size_t n) { return g() % n; }
    fs::path fresh() { return fs::path(root) / ("d" + std::to_string(dirno++)); }
    std::size_t depth() { static const std::size_t S[] = {0, 1, 2, 3, 5, 20}; return S[r(6)]; }
    std::unique_ptr<Arr> make(const fs::path& p) { return std::make_unique<Arr>(p, depth(), Ind<D>(1 + r(4)), sc); }
    World(std::size_t seed, std::size_t ext) : g(seed * 77 + 13), sc(stor::INFTY), ext(ext) {
      root = std::string(evn::tmpdir()) + "/w"; fs::remove_all(root); fs::create_directory(root); dir = fresh();
      rows = 1 + (r(4) == 0); for(std::size_t k = 1; k < D; k++) if(r(5) == 0) sc[k] = 1;
      if(D > 1) if(r(4) == 0) { rows = 2 + r(2); sc[1] = 1; }
      sc[0] = rows;
      arr = make(dir);
    }
    ~World() { arr.reset(); std::error_code ec; fs::remove_all(root, ec); }
    Val value(int style) { Val v; for(auto& x : v) { x = style == 0 ? 0.0f : style == 1 && r(2) ? 0.0f : (float)(1 + r(4000)) / 8.0f * (r(2) ? 1 : -1); } return v; }
    bool free(const Ind<D>& a, const Ind<D>& b) { for(auto& x : boxes) { bool meet = true; for(std::size_t k = 0; k < D; k++) if(a[k] >= x.b[k] || b[k] <= x.a[k]) meet = false; if(meet) return false; } return true; }
    bool pickbox(Ind<D>& a, Ind<D>& b) {
      for(int t = 0; t < 12; t++) {
        for(std::size_t k = 0; k < D; k++) { a[k] = r(ext); b[k] = a[k] + 1 + r(3); }
        if(boxes.size() && r(3)) { auto& x = boxes[r(boxes.size())]; a = x.a; b = x.b; std::size_t k = r(D); std::size_t h = 1 + r(3); a[k] = x.b[k]; b[k] = a[k] + h; }   // next to an existing one
        else if(boxes.empty() && r(2)) { for(std::size_t k = 0; k < D; k++) { b[k] -= a[k]; a[k] = 0; } }
        b[0] = a[0] + (b[0] - a[0] + rows - 1) / rows * rows;
        if(free(a, b)) return true;
      }
      return false;
    }
    void put(Arr& where, const Ind<D>& a, const Ind<D>& b, std::map<std::array<std::size_t, D>, Val>& mm, std::vector<Box>& bb) {
      std::size_t overlap = r(4) == 0 ? 1 + r(2) : 0; int style = r(3); bool opt = r(2); 
      A c(b - a + 2 * overlap); bool zero = true; float* base = &*c.data();
      for(std::size_t i = 0; i < c.GetVolume(); i += V) { Val v = value(style); for(std::size_t j = 0; j < V; j++) { base[i + j] = v[j]; if(v[j] != 0.0f) zero = false; } }
      auto hints = opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
      if(overlap) where.RegisterChunk(c, a, b, overlap, hints); else where.RegisterChunk(c, a, hints);
      each<D>(a, b, [&](const Ind<D>& i) { Val v; auto e = c[i - a + overlap]; for(std::size_t j = 0; j < V; j++) v[j] = e[j]; mm[key<D>(i)] = v; });
      bb.push_back({a, b, overlap, opt && zero}); if(opt && zero) ev_cover("zero chunk not stored"); if(overlap) ev_cover("overlapping chunk");
    }
    void reg() { Ind<D> a, b; if(pickbox(a, b)) put(*arr, a, b, m, boxes); }
    void append() {
      if(boxes.empty()) return;
      for(int t = 0; t < 6; t++) {
        auto& x = boxes[r(2) ? boxes.size() - 1 : r(boxes.size())]; if(x.null || x.overlap) continue;
        std::size_t axis = 0;
        if constexpr(D > 1) if(sc[1] == 1 && x.b[0] - x.a[0] <= rows && r(2)) axis = 1;
        if(axis == 0 && (x.b[0] - x.a[0]) % rows) continue;
        Ind<D> a = x.a, b = x.b; a[axis] = x.b[axis]; b[axis] = a[axis] + (1 + r(2)) * (axis ? 1 : rows); if(!free(a, b)) continue;
        int style = r(3); A c(b - a); float* base = &*c.data();
        for(std::size_t i = 0; i < c.GetVolume(); i += V) { Val v = value(style); for(std::size_t j = 0; j < V; j++) base[i + j] = v[j]; }
        if(axis == 0) arr->template AppendSlice<0>(a, c); else if constexpr(D > 1) { arr->Flush(); /* joining slices in memory is implemented for the outermost axis only */ arr->template AppendSlice<1>(a, c); ev_cover("appended along another axis"); }
        each<D>(a, b, [&](const Ind<D>& i) { Val v; auto e = c[i - a]; for(std::size_t j = 0; j < V; j++) v[j] = e[j]; m[key<D>(i)] = v; });
        x.b = b; ev_cover("appended"); return;
      }
    }
    static bool same(auto&& e, const Val& v) { for(std::size_t j = 0; j < V; j++) if(ev::bits((float)e[j]) != ev::bits(v[j]) && !((float)e[j] == 0.0f && v[j] == 0.0f)) return false; return true; }
    void reads(std::size_t n) {
      if(m.empty()) return;
      for(std::size_t t = 0; t < n; t++) { auto it = m.lower_bound([&] { std::array<std::size_t, D> q; for(auto& x : q) x = r(ext + 3); return q; }()); if(it == m.end()) it = m.begin(); Ind<D> i; for(std::size_t k = 0; k < D; k++) i[k] = it->first[k]; auto e = (*arr)[i]; ev_check(same(e, it->second), "a single element reads back the value of the abstract array"); }
    }
    void region() {
      Ind<D> a, b, o, s; for(std::size_t k = 0; k < D; k++) { a[k] = r(ext + 2); b[k] = a[k] + 1 + r(ext); o[k] = r(3); s[k] = o[k] + (b[k] - a[k]) + r(2); }
      A c(s); float* base = &*c.data(); for(std::size_t i = 0; i < c.GetVolume(); i++) base[i] = 7777.0f;
      arr->FillArray(c, a, b, o);
      Val old; old.fill(7777.0f);
      each<D>(Ind<D>(0u), s, [&](const Ind<D>& i) { bool in = true; for(std::size_t k = 0; k < D; k++) if(i[k] < o[k] || i[k] >= o[k] + (b[k] - a[k])) in = false; Ind<D> q; if(in) q = i - o + a; auto it = in ? m.find(key<D>(q)) : m.end(); ev_check(same(c[i], it == m.end() ? old : it->second), "a region copy holds the values of the abstract array and leaves everything else alone"); });
    }
    bool whole(Ind<D>& top) { if(m.empty()) return false; top = Ind<D>(0u); for(auto& [k, v] : m) for(std::size_t d = 0; d < D; d++) top[d] = std::max(top[d], k[d] + 1); std::size_t n = 1; for(std::size_t d = 0; d < D; d++) n *= top[d]; return n == m.size(); }
    void iterate() {
      Ind<D> top, sh = arr->GetShape(), lo(0u); bool w = whole(top);
      if(m.size()) { // contiguous from its first index on?
        Ind<D> hi(0u); lo = Ind<D>(1000u); for(auto& [k, v] : m) for(std::size_t d = 0; d < D; d++) { lo[d] = std::min(lo[d], k[d]); hi[d] = std::max(hi[d], k[d] + 1); }
        std::size_t n = 1; for(std::size_t d = 0; d < D; d++) n *= hi[d] - lo[d];
        for(std::size_t d = 0; d < D; d++) ev_check(sh[d] == (n == m.size() ? hi[d] - lo[d] : 0), "shape of a contiguous array");
      } else for(std::size_t d = 0; d < D; d++) ev_check(sh[d] == 0, "an empty array has no shape");
      if(!w) return;
      std::map<std::array<std::size_t, D>, int> seen;
      arr->index_loop_over_elements([&](const Ind<D>& i, auto&& e) { auto it = m.find(key<D>(i)); ev_check(it != m.end() && same(e, it->second), "iteration shows the value of the abstract array"); ev_check(++seen[key<D>(i)] == 1, "iteration visits every element once"); });
      ev_check(seen.size() == m.size(), "iteration visits every element"); ev_cover("iterated");
    }
    template <std::size_t P, std::size_t Q> void swap() {
      arr->template SwapAxes<P, Q>();
      std::map<std::array<std::size_t, D>, Val> n; for(auto& [k, v] : m) { auto q = k; std::swap(q[P], q[Q]); n[q] = v; } m = n;
      for(auto& x : boxes) { std::swap(x.a[P], x.a[Q]); std::swap(x.b[P], x.b[Q]); } ev_cover("swapped");
    }
    void swapaxes() { if constexpr(D == 2) { if(r(2)) swap<0, 1>(); else swap<1, 0>(); } else if constexpr(D == 3) { switch(r(3)) { case 0: swap<0, 1>(); break; case 1: swap<0, 2>(); break; default: swap<1, 2>(); } } }
    void move() { fs::path n = fresh(); if(r(2)) fs::create_directory(n); arr->Move(n); ev_check(!fs::exists(dir), "the old location is gone"); dir = n; ev_cover("moved"); }
    void reopen() { arr.reset(); arr = make(dir); ev_cover("reopened"); }
    void import() {
      fs::path n = fresh(); std::vector<Box> nb; { auto other = make(n); std::size_t c = 1 + r(2); for(std::size_t t = 0; t < c; t++) { Ind<D> a, b; if(!pickbox(a, b)) continue; put(*other, a, b, m, nb); boxes.push_back(nb.back()); } if(r(2)) other->Flush(); }
      arr->Import(n, r(2)); ev_cover("imported");
    }
    void step(std::size_t op) {
      switch(op) { case 0: reg(); break; case 1: append(); break; case 2: reads(3); break; case 3: region(); break; case 4: arr->Flush(); break; case 5: swapaxes(); break; case 6: move(); break; case 7: import(); break; case 8: reopen(); break; default: iterate(); }
    }
    void all() { for(auto& [k, v] : m) { Ind<D> i; for(std::size_t d = 0; d < D; d++) i[d] = k[d]; ev_check(same((*arr)[i], v), "every element reads back"); } }
  };
  template <std::size_t D, std::size_t V> void history(std::size_t ext, std::size_t steps) {
    World<D, V> w(ev_nat("layout", 0, 1 << 20), ext); ev_cover("reached");
    std::size_t n = ev_nat("steps", 1, steps);
    for(std::size_t i = 0; i < n; i++) w.step(ev_nat("op", 0, 9));
    w.all(); w.region();
  }
  template <std::size_t D, std::size_t V> void longer(std::size_t ext, std::size_t steps) {
    std::size_t seed = 0; for(int i = 0; i < 4; i++) seed = seed * 16 + ev_nat("seed", 0, 15);
    World<D, V> w(seed, ext); ev_cover("reached");
    static const int P[4][20] = {{0,0,0,0,1,1,1,1,1,2,2,2,3,3,4,5,6,7,8,9}, {0,1,1,1,1,1,1,1,1,1,2,2,3,4,0,1,1,1,2,8}, {0,0,0,0,0,0,2,2,2,2,3,3,3,9,5,5,5,8,8,7}, {0,0,0,1,1,1,7,7,8,8,6,6,2,2,5,5,4,3,9,0}};
    std::size_t profile = w.r(4), n = 4 + w.r(steps);
    for(std::size_t i = 0; i < n; i++) w.step(P[profile][w.r(20)]);
    w.all(); w.region(); w.region(); w.iterate();
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(steps_1_1, history<1, 1>(4, 6)) C(steps_2_2, history<2, 2>(3, 6)) C(steps_3_1, history<3, 1>(2, 5))
C(long_1_2, longer<1, 2>(8, 25)) C(long_2_1, longer<2, 1>(5, 30)) C(long_2_2, longer<2, 2>(4, 25)) C(long_3_2, longer<3, 2>(3, 25)) C(long_3_1, longer<3, 1>(3, 40))
#endif
