#include "ev.hh"
#include <filesystem>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "clang_compat.hh"
#include "DistributedNDVecArray.hh"
#include "Symmetry.hh"
// Rechunking: every element of every rebuilt chunk (overlap cells included) against the source array and the boundary rule.
#ifndef EV_VERIFY
namespace fs = std::filesystem;
namespace {
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  template <std::size_t D> using SInd = Vector<int, D>;
  template <std::size_t D> bool each(const Ind<D>& a, const Ind<D>& b, auto&& f) { Ind<D> i = a; for(std::size_t k = 0; k < D; k++) if(a[k] >= b[k]) return true; while(true) { f(i); std::size_t k = D; while(k > 0 && ++i[k - 1] == b[k - 1]) { i[k - 1] = a[k - 1]; k--; } if(k == 0) return true; } }
  template <std::size_t D, std::size_t V> struct Lib : ChunkLibrary<NDVecArray, float, D, V> {     // looks at the chunks of a library on disk
    using B = ChunkLibrary<NDVecArray, float, D, V>;
    Lib(fs::path p) : B(p, 3, Ind<D>(2), Ind<D>(stor::INFTY)) {}
    std::vector<std::pair<ChunkMetadata<D>, NDVecArray<float, D, V>>> all() {
      std::vector<std::pair<ChunkMetadata<D>, NDVecArray<float, D, V>>> r;
      for(const ChunkMetadata<D>& m : this->m_index.GetChunks(Ind<D>(0u), Ind<D>(100000))) r.push_back({m, this->m_cache.RetrieveChunk(m)});
      return r;
    }
  };
  enum Rule { FULL, LOCAL, MIRROR };
  template <std::size_t D, std::size_t V> struct World {
    using A = NDVecArray<float, D, V>; using Arr = DistributedNDVecArray<NDVecArray, float, D, V>; using Val = std::array<float, V>; using view_t = typename Arr::view_t;
    std::mt19937_64 g; std::string root; fs::path dir; std::unique_ptr<Arr> arr; Ind<D> lo, hi; Rule rule; std::vector<Val> ref; std::size_t dirno = 0;
    std::size_t r(std::size_t n) { return g() % n; }
    fs::path fresh() { return fs::path(root) / ("d" + std::to_string(dirno++)); }
    std::size_t flat(const Ind<D>& i) { std::size_t f = 0; for(std::size_t k = 0; k < D; k++) f = f * (hi[k] - lo[k]) + (i[k] - lo[k]); return f; }
    World(std::size_t seed, std::size_t ext, Rule rule, bool based) : g(seed * 131 + 7), rule(rule) {
      root = std::string(evn::tmpdir()) + "/w"; fs::remove_all(root); fs::create_directory(root); dir = fresh();
      Ind<D> sc(stor::INFTY); sc[0] = 1; arr = std::make_unique<Arr>(dir, r(4), Ind<D>(3), sc);
      std::vector<std::vector<std::size_t>> cuts(D); std::size_t n = 1;
      for(std::size_t k = 0; k < D; k++) { lo[k] = based ? 0 : r(4); hi[k] = lo[k] + 1 + r(ext); n *= hi[k] - lo[k]; std::size_t c = lo[k]; cuts[k] = {c}; while(c < hi[k]) { c = std::min(hi[k], c + 1 + r(ext)); cuts[k].push_back(c); } }
      int style = r(3); ref.resize(n); for(auto& v : ref) for(auto& x : v) x = style == 0 && r(8) ? 0.0f : (float)(1 + r(4000)) / 4.0f;
      Ind<D> c0(0u), c1; for(std::size_t k = 0; k < D; k++) c1[k] = cuts[k].size() - 1;
      bool opt = r(2);
      each<D>(c0, c1, [&](const Ind<D>& c) { Ind<D> a, b; for(std::size_t k = 0; k < D; k++) { a[k] = cuts[k][c[k]]; b[k] = cuts[k][c[k] + 1]; } A x(b - a); each<D>(a, b, [&](const Ind<D>& i) { Vector<float, V> v; for(std::size_t j = 0; j < V; j++) v[j] = ref[flat(i)][j]; x[i - a] = v; }); arr->RegisterChunk(x, a, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); });
    }
    ~World() { arr.reset(); std::error_code ec; fs::remove_all(root, ec); }
    bool inside(const SInd<D>& i) { for(std::size_t k = 0; k < D; k++) if(i[k] < (int)lo[k] || i[k] >= (int)hi[k]) return false; return true; }
    Val at(const SInd<D>& i) { Ind<D> u; for(std::size_t k = 0; k < D; k++) u[k] = (std::size_t)i[k]; return ref[flat(u)]; }
    Val outside(const SInd<D>& i) {
      Val v; SInd<D> c = i; 
      if(rule == FULL) { for(std::size_t k = 0; k < D; k++) c[k] = std::clamp(i[k], (int)lo[k], (int)hi[k] - 1); v = at(c); for(auto& x : v) x = -x; return v; }
      if(rule == LOCAL) { for(std::size_t j = 0; j < V; j++) { float s = (float)j + 1; for(std::size_t k = 0; k < D; k++) s = s * 32.0f + (float)(i[k] + 8); v[j] = -s; } return v; }
      v.fill(0.0f); if(i[0] < 0) { c[0] = -i[0]; if(inside(c)) return at(c); } return v;
    }
    void with_rule(auto&& f) {
      if(rule == FULL) f([this](Arr& a, const SInd<D>& i, view_t e) { ev_check(!inside(i), "the boundary rule is asked for outside elements only"); Ind<D> c; for(std::size_t k = 0; k < D; k++) c[k] = (std::size_t)std::clamp(i[k], (int)lo[k], (int)hi[k] - 1); auto s = a[c]; Vector<float, V> v; for(std::size_t j = 0; j < V; j++) v[j] = -s[j]; e = v; });
      else if(rule == LOCAL) f([this](A& c, const SInd<D>& a, const SInd<D>& b, const SInd<D>& i, view_t e) { ev_check(!inside(i), "the boundary rule is asked for outside elements only"); for(std::size_t k = 0; k < D; k++) { ev_check(i[k] >= a[k] && i[k] < b[k], "inside the chunk"); ev_check((int)c.GetShape()[k] == b[k] - a[k], "shape of the chunk"); } Vector<float, V> v; Val o = outside(i); for(std::size_t j = 0; j < V; j++) v[j] = o[j]; e = v; });
      else if constexpr(D == 3 && V == 2) f([](A& c, const SInd<D>& a, const SInd<D>& b, const SInd<D>& i, view_t e) { SpatialSymmetry::Cylindrical<float>::boundary_evaluator(c, a, b, i, e); });
    }
    static bool same(auto&& e, const Val& v) { for(std::size_t j = 0; j < V; j++) if(!((float)e[j] == v[j])) return false; return true; }
    // the chunks of the library in `d` are those of [a, b) shifted so that a lands on `at0`
    void inspect(const fs::path& d, const Ind<D>& a, const Ind<D>& b, const Ind<D>& at0, const Ind<D>& want, std::size_t overlap) {
      Lib<D, V> lib(d); std::size_t n = 1, seen = 0; for(std::size_t k = 0; k < D; k++) n *= b[k] - a[k]; std::set<std::vector<std::size_t>> cells;
      for(auto& [m, c] : lib.all()) {
        Ind<D> sh = m.end_ind - m.start_ind;
        for(std::size_t k = 0; k < D; k++) { ev_check(sh[k] >= 1 && sh[k] <= want[k], "a chunk is at most as large as requested"); ev_check(m.start_ind[k] >= at0[k] && m.end_ind[k] <= at0[k] + (b[k] - a[k]), "a chunk lies in the region"); ev_check(m.shape[k] == sh[k], "recorded shape"); ev_check(c.GetShape()[k] == sh[k] + 2 * overlap, "a chunk carries the requested overlap"); }
        ev_check(m.overlap == overlap, "recorded overlap");
        each<D>(m.start_ind, m.end_ind, [&](const Ind<D>& i) { std::vector<std::size_t> q; for(std::size_t k = 0; k < D; k++) q.push_back(i[k]); ev_check(cells.insert(q).second, "chunks do not overlap"); seen++; });
        each<D>(Ind<D>(0u), c.GetShape(), [&](const Ind<D>& i) {
          SInd<D> q; for(std::size_t k = 0; k < D; k++) q[k] = (int)i[k] + (int)m.start_ind[k] - (int)overlap - (int)at0[k] + (int)a[k];
          if(inside(q)) ev_check(same(c[i], at(q)), "a cell inside the original array holds its element"); else { ev_check(same(c[i], outside(q)), "a cell outside the original array holds what the boundary rule gives"); ev_cover("boundary cell"); } });
      }
      ev_check(seen == n, "chunks cover the region");
    }
    void readable(Arr& x) { each<D>(lo, hi, [&](const Ind<D>& i) { ev_check(same(x[i], ref[flat(i)]), "every element unchanged"); }); }
    void partial() {
      Ind<D> a, b, o, want; for(std::size_t k = 0; k < D; k++) { a[k] = lo[k] + r(hi[k] - lo[k]); if(r(2)) a[k] = lo[k]; b[k] = a[k] + 1 + r(hi[k] - a[k]); if(r(2)) b[k] = hi[k]; o[k] = r(2) ? a[k] : r(5); want[k] = 1 + r(hi[k] - lo[k] + 2); }
      std::size_t overlap = r(4); fs::path d = fresh(); auto h = r(2) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
      // the mirrored cells of a chunk lie in the chunk when it starts at the axis or covers enough of it
      if(rule == MIRROR) { if(a[0] != 0 && a[0] < overlap) a[0] = 0; want[0] = std::max(want[0], overlap); if(b[0] < a[0] + 1) b[0] = a[0] + 1; if(lo[0] != 0) return; }
      bool plain = overlap == 0 && r(2);
      if(plain) { arr->RebuildChunksPartial(a, b, want, d, h); o = a; }
      else with_rule([&](auto&& f) { if(r(2)) { arr->RebuildChunksPartial(a, b, want, d, overlap, f, h); o = a; } else arr->RebuildChunksPartial(a, b, o, want, d, overlap, f, h); });
      inspect(d, a, b, o, want, overlap); ev_cover("partial");
      readable(*arr);
    }
    void whole() {
      for(std::size_t k = 0; k < D; k++) if(lo[k] != 0) return;
      Ind<D> want; for(std::size_t k = 0; k < D; k++) want[k] = 1 + r(hi[k] + 2);
      std::size_t overlap = r(4); fs::path t = fresh(); auto h = r(2) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
      if(rule == MIRROR) want[0] = std::max(want[0], overlap);
      if(overlap == 0 && r(2)) arr->RebuildChunks(want, t, h); else with_rule([&](auto&& f) { arr->RebuildChunks(want, t, overlap, f, h); });
      ev_check(!fs::exists(t), "temporary directory removed");
      auto s = arr->GetShape(); for(std::size_t k = 0; k < D; k++) ev_check(s[k] == hi[k], "shape unchanged");
      readable(*arr); arr->Flush();
      inspect(dir, Ind<D>(0u), hi, Ind<D>(0u), want, overlap); ev_cover("whole");
      if(r(2)) { arr.reset(); Ind<D> sc(stor::INFTY); sc[0] = 1; arr = std::make_unique<Arr>(dir, r(4), Ind<D>(3), sc); readable(*arr); }
    }
  };
  template <std::size_t D, std::size_t V> void rebuild(std::size_t ext, Rule rule) {
    std::size_t seed = 0; for(int i = 0; i < 4; i++) seed = seed * 16 + ev_nat("seed", 0, 15);
    World<D, V> w(seed, ext, rule, ev_bool("zero based")); ev_cover("reached");
    std::size_t n = ev_nat("ops", 1, 3); for(std::size_t i = 0; i < n; i++) { if(ev_bool("whole")) w.whole(); else w.partial(); }
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(full_1_1, rebuild<1, 1>(9, FULL)) C(full_2_2, rebuild<2, 2>(5, FULL)) C(full_3_1, rebuild<3, 1>(4, FULL)) C(full_3_2, rebuild<3, 2>(4, FULL))
C(local_1_2, rebuild<1, 2>(9, LOCAL)) C(local_2_1, rebuild<2, 1>(5, LOCAL)) C(local_3_2, rebuild<3, 2>(4, LOCAL)) C(local_3_1, rebuild<3, 1>(3, LOCAL)) C(mirror, rebuild<3, 2>(4, MIRROR))
#endif
