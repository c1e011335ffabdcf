#include "ev.hh"
#include <filesystem>
#include "Common.hh"
#include "Vector.hh"
#include "RStarTree.hh"
// The spatial index against a flat list of (box, payload).  Pairwise disjoint boxes: every entry lives in a cell of its own of a
// regular grid and covers an arbitrary non-empty part of it (possibly all of it, so neighbours may touch).
#ifndef EV_VERIFY
namespace {
  struct Pay { long id = -1; bool operator==(const Pay&) const = default; };
  template <std::size_t D> struct World {
    using V = Vector<std::size_t, D>; using Tree = RStarTree<std::size_t, D, Pay>;
    static constexpr std::size_t G = 4;
    struct E { std::size_t cell; V a, b; long id; };
    Tree t; std::size_t side; std::vector<E> m; std::vector<std::size_t> freecells; long stamp = 0; std::mt19937_64 g;
    World(std::size_t init, std::size_t side, std::uint64_t seed) : t(init), side(side), g(seed * 977 + 5) { std::size_t n = 1; for(std::size_t k = 0; k < D; k++) n *= side; for(std::size_t i = 0; i < n; i++) freecells.push_back(i); int order = seed % 3; if(order == 1) std::reverse(freecells.begin(), freecells.end()); else if(order == 0) std::shuffle(freecells.begin(), freecells.end(), g); }
    void box(E& e) { std::size_t c = e.cell; bool full = g() % 3 == 0; for(std::size_t k = 0; k < D; k++) { std::size_t o = (c % side) * G; c /= side; if(full) { e.a[k] = o; e.b[k] = o + G; } else { e.a[k] = o + g() % G; e.b[k] = e.a[k] + 1 + g() % (o + G - e.a[k]); } } }
    void insert() { if(freecells.empty()) return; E e; e.cell = freecells.back(); freecells.pop_back(); e.id = ++stamp; box(e); Pay& r = t.InsertElement(Pay{e.id}, e.a, e.b); ev_check(r.id == e.id, "insertion returns the stored entry"); m.push_back(e); }
    static bool in(const E& e, const V& p) { for(std::size_t k = 0; k < D; k++) if(p[k] < e.a[k] || p[k] >= e.b[k]) return false; return true; }
    static bool meet(const E& e, const V& a, const V& b) { for(std::size_t k = 0; k < D; k++) if(a[k] >= e.b[k] || b[k] <= e.a[k]) return false; return true; }
    void update() { if(m.empty()) { V p(0u), q(1u); t.UpdateBoundingBox(p, p, q); return; } std::size_t x = g() % m.size(); if(g() % 2) { std::size_t k = g() % D; bool up = g() % 2; for(std::size_t i = 0; i < m.size(); i++) if(up ? m[i].b[k] > m[x].b[k] : m[i].a[k] < m[x].a[k]) x = i; }   // often an entry at the edge of the overall box
      E& e = m[x]; V p; for(std::size_t k = 0; k < D; k++) p[k] = e.a[k] + g() % (e.b[k] - e.a[k]); box(e); t.UpdateBoundingBox(p, e.a, e.b); }
    void miss_update() { V p; for(std::size_t k = 0; k < D; k++) p[k] = g() % (side * G); for(auto& e : m) if(in(e, p)) return; t.UpdateBoundingBox(p, V(0u), V(1u)); }
    void point(const V& p) {
      Pay* r = t.Search(p); const E* w = nullptr; for(auto& e : m) if(in(e, p)) w = &e;
      if(w) ev_check(r != nullptr && r->id == w->id, "a point query returns the entry whose box contains the point"); else ev_check(r == nullptr, "a point query outside all boxes finds nothing");
    }
    void range(const V& a, const V& b) {
      std::vector<long> got, want; for(const Pay& p : t.Search(a, b)) got.push_back(p.id); for(auto& e : m) if(meet(e, a, b)) want.push_back(e.id);
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); ev_check(got == want, "a range query returns every overlapping entry once and no other");
    }
    void observe(bool box_too) {
      ev_check(t.Empty() == m.empty(), "emptiness");
      V p; for(int i = 0; i < 6; i++) { for(std::size_t k = 0; k < D; k++) p[k] = g() % (side * G + 2); point(p); }
      for(int i = 0; i < 4 && m.size(); i++) { auto& e = m[g() % m.size()]; for(std::size_t k = 0; k < D; k++) p[k] = g() % 2 ? e.a[k] : e.b[k] - 1; point(p); point(p); std::size_t k = g() % D; if(g() % 2) p[k] = e.b[k]; else if(e.a[k] > 0) p[k] = e.a[k] - 1; point(p); }
      for(int i = 0; i < 4; i++) { V a, b; for(std::size_t k = 0; k < D; k++) { a[k] = g() % (side * G); b[k] = a[k] + 1 + g() % (i < 2 ? 3 : side * G); } range(a, b); }
      range(V(0u), V((std::size_t)1 << 40));
      std::vector<long> want, got; for(auto& e : m) want.push_back(e.id); std::sort(want.begin(), want.end());
      std::vector<Pay> l; t.GetAllEntries(l); for(auto& x : l) got.push_back(x.id); std::sort(got.begin(), got.end()); ev_check(got == want, "listing yields every entry once");
      got.clear(); t.Apply([&](Pay& x) { got.push_back(x.id); }); std::sort(got.begin(), got.end()); ev_check(got == want, "applying a worker reaches every entry once");
      if(box_too && m.size()) { auto bb = t.GetBoundingBox(); V a = m[0].a, b = m[0].b; for(auto& e : m) for(std::size_t k = 0; k < D; k++) { a[k] = std::min(a[k], e.a[k]); b[k] = std::max(b[k], e.b[k]); } for(std::size_t k = 0; k < D; k++) { ev_check(bb.start_coords[k] == a[k] && bb.end_coords[k] == b[k], "the smallest box around all entries"); ev_check(bb.shape[k] == b[k] - a[k], "the smallest box around all entries: shape"); } }
    }
  };
  template <std::size_t D> void step(World<D>& w, std::size_t op, std::size_t burst) {
      if(op <= 1) { for(std::size_t k = 0; k < burst; k++) w.insert(); ev_cover("burst"); } else if(op <= 4) w.insert();
      else if(op <= 6) { w.update(); ev_cover("updated"); } else if(op == 7) { w.t.RebuildSTR(); ev_cover("rebuilt"); } else if(op == 8) w.miss_update();
      else { w.t.Clear(); for(auto& e : w.m) w.freecells.push_back(e.cell); w.m.clear(); ev_cover("cleared"); }
      w.observe(true);
  }
  // every history step by step
  template <std::size_t D> void history(std::size_t side, std::size_t steps, std::size_t burst) {
    World<D> w(ev_nat("init", 0, 9), side, ev_nat("layout", 0, 1 << 20)); ev_cover("reached");
    std::size_t n = ev_nat("steps", 1, steps); w.observe(true);
    for(std::size_t i = 0; i < n; i++) step(w, ev_nat("op", 0, 9), burst);
  }
  // long random histories: the operations are drawn from a generator, weighted by a profile
  template <std::size_t D> void longer(std::size_t side, std::size_t steps, std::size_t burst) {
    std::size_t seed = 0; for(int i = 0; i < 4; i++) seed = seed * 16 + ev_nat("seed", 0, 15);
    World<D> w(ev_nat("init", 0, 9), side, seed); ev_cover("reached"); std::size_t profile = seed % 4;
    static const int P[4][20] = {{0,2,2,2,2,2,2,2,2,2,2,2,5,5,5,7,8,2,2,2}, {0,0,2,2,2,2,5,5,5,5,5,5,5,5,5,5,8,7,2,2}, {2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,5}, {0,0,2,2,2,5,5,5,7,7,7,2,2,2,8,9,2,2,5,5}};
    for(std::size_t i = 0; i < steps; i++) step(w, P[profile][w.g() % 20], burst);
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(small_1, history<1>(16, 14, 3)) C(small_2, history<2>(5, 14, 3)) C(small_3, history<3>(3, 14, 3))
C(large_1, longer<1>(400, 60, 30)) C(large_2, longer<2>(24, 60, 30)) C(large_3, longer<3>(9, 60, 30)) C(medium_1, longer<1>(40, 40, 5)) C(medium_2, longer<2>(7, 40, 5)) C(medium_3, longer<3>(4, 40, 5))
#endif
