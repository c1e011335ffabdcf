#include "ev.hh"
#include <filesystem>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "clang_compat.hh"
#include "DistributedNDVecArray.hh"
#include "Symmetry.hh"
#include "GreensFunction.hh"
// Signal accumulation against a direct evaluation in double precision of the sum over track points and samples.
#ifndef EV_VERIFY
namespace fs = std::filesystem;
namespace {
  using A3 = NDVecArray<float, 3, 2>; using Arr = DistributedNDVecArray<NDVecArray, float, 3, 2>; using I3 = Vector<std::size_t, 3>;
  using Interpolation::Kernel::Keys; using Interpolation::Kernel::Linear;
  bool each(const I3& a, const I3& b, auto&& f) { for(std::size_t x = a[0]; x < b[0]; x++) for(std::size_t y = a[1]; y < b[1]; y++) for(std::size_t z = a[2]; z < b[2]; z++) f(I3{x, y, z}); return true; }
  void weights(const Keys*, double f, double* w) { w[0] = -0.5 * f * (1 - f) * (1 - f); w[1] = 1 + f * f * (1.5 * f - 2.5); w[2] = f * (0.5 + f * (2 - 1.5 * f)); w[3] = -0.5 * f * f * (1 - f); }
  void weights(const Linear*, double f, double* w) { w[0] = 1 - f; w[1] = f; }
  struct Eval { double v[2] = {0, 0}, mag[2] = {0, 0}; };
  struct World {
    std::mt19937_64 g; std::string root; fs::path dir; std::size_t n[3]; std::vector<std::array<float, 2>> a; double p0[3], d[3]; std::unique_ptr<CylindricalGreensFunction> gf; std::size_t overlap; bool onlylinear;
    std::size_t r(std::size_t m) { return g() % m; }
    double pickd(std::initializer_list<double> l) { return l.begin()[r(l.size())]; }
    World(std::size_t seed, std::size_t rz, std::size_t tmin, std::size_t text) : g(seed * 191 + 3) {
      root = std::string(evn::tmpdir()) + "/w"; fs::remove_all(root); fs::create_directory(root); dir = fs::path(root) / "g";
      n[0] = 3 + r(rz); n[1] = 3 + r(rz); n[2] = tmin + r(text);
      for(int k = 0; k < 3; k++) d[k] = pickd({1, 0.5, 2}); p0[0] = 0; p0[1] = pickd({0, -3, 2.5}); p0[2] = pickd({0, 0, 0, 1, -2});
      a.resize(n[0] * n[1] * n[2]); int style = r(4);
      for(std::size_t i = 0; i < a.size(); i++) { std::size_t t = i % n[2], z = i / n[2] % n[1]; bool zero = style == 0 ? false : style == 1 ? t < n[2] / 2 : style == 2 ? (t / 2) % 3 == 1 : (z < 2 && t > 2) || t < 1; for(auto& x : a[i]) x = zero ? 0.0f : (float)((int)r(129) - 64) / 16.0f; }
      I3 sc(stor::INFTY); sc[0] = 1; overlap = 2 + (r(4) == 0); onlylinear = r(8) == 0; if(onlylinear) overlap = 1;
      Arr arr(dir, r(3), I3(3), sc); A3 x(I3{n[0], n[1], n[2]}); each(I3(0u), I3{n[0], n[1], n[2]}, [&](const I3& i) { auto& v = a[(i[0] * n[1] + i[1]) * n[2] + i[2]]; x[i] = Vector<float, 2>{v[0], v[1]}; });
      arr.RegisterChunk(x, I3(0u));
      I3 want{2 + r(n[0]), 2 + r(n[1]), 1 + r(n[2] + 1)}; if(want[0] < overlap) want[0] = overlap;
      arr.RebuildChunks(want, fs::path(root) / "t", overlap, SpatialSymmetry::Cylindrical<float>::boundary_evaluator, r(3) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
      RZTCoordVector s{(float)p0[0], (float)p0[1], (float)p0[2]}, e{(float)(p0[0] + d[0] * n[0]), (float)(p0[1] + d[1] * n[1]), (float)(p0[2] + d[2] * n[2])}, in{(float)d[0], (float)d[1], (float)d[2]};
      { CylindricalGreensFunction create(s, e, in, std::move(arr)); }
      gf = std::make_unique<CylindricalGreensFunction>(dir, r(4));
    }
    ~World() { gf.reset(); std::error_code ec; fs::remove_all(root, ec); }
    double at(long i, long j, long k, int c) { i = std::labs(i); if(i >= (long)n[0] || j < 0 || j >= (long)n[1] || k < 0 || k >= (long)n[2]) return 0; return a[(i * n[1] + j) * n[2] + k][c]; }
    // -1: outside, 0: too close to the edge to tell in float arithmetic, 1: inside
    int domain(const double* x, bool exact) { int res = 1; for(int k = 0; k < 3; k++) { if(x[k] < 0 || x[k] >= n[k]) { if(!exact && (std::fabs(x[k]) < 1e-3 || std::fabs(x[k] - n[k]) < 1e-3)) { if(res > 0) res = 0; continue; } if(x[k] == n[k]) { if(res > 0) res = 0; continue; } res = -1; } else if(!exact && (x[k] < 1e-3 || n[k] - x[k] < 1e-3)) { if(res > 0) res = 0; } } return res; }
    template <class K> Eval eval(const double* x) {
      constexpr long S = K::support, N = 2 * S; double w[3][N]; long b[3]; for(int k = 0; k < 3; k++) { b[k] = (long)std::floor(x[k]); weights((K*)nullptr, x[k] - b[k], w[k]); b[k] -= S - 1; }
      Eval e; for(long i = 0; i < N; i++) for(long j = 0; j < N; j++) for(long k = 0; k < N; k++) for(int c = 0; c < 2; c++) { double t = w[0][i] * w[1][j] * w[2][k] * at(b[0] + i, b[1] + j, b[2] + k, c); e.v[c] += t; e.mag[c] += std::fabs(t); }
      return e;
    }
    std::vector<float> fresh_signal(std::size_t m) { std::vector<float> s(m); for(auto& x : s) x = (float)((int)r(65) - 32) / 8.0f; return s; }
    void compare(const std::vector<float>& got, const std::vector<float>& before, const std::vector<double>& add, const std::vector<double>& mag, std::size_t from, bool exact, double slack = 0) {
      for(std::size_t i = 0; i < got.size(); i++) {
        bool in = i >= from && i < from + add.size();
        if(!in || (exact && mag[i - from] == 0)) ev_check(ev::bits(got[i]) == ev::bits(before[i]) || (in && got[i] == before[i]), "other samples are not touched");
        else ev_check(std::fabs((double)got[i] - before[i] - add[i - from]) <= 3e-4 * mag[i - from] + 1e-5 + slack, "each sample receives exactly its own contribution");
      }
    }
    template <class K> void inner(bool exact) {
      double x[3], src[2] = {pickd({1, -0.5, 2}), pickd({1, 0.25, -3, 0})}, w = pickd({1, 1, -0.5}); auto mode = r(2) ? Green::RaiseError : Green::Ignore; bool wander = r(3) == 0;
      double q = exact ? 0.25 : 0.137; double step = exact ? pickd({0.25, 0.5, 1, 1.5, 2, 3, 5.5}) : pickd({0.1, 0.3, 1.0 / 3, 0.77, 1.01, 2.37});
      for(int k = 0; k < 3; k++) { x[k] = q * r((std::size_t)((double)n[k] / q) + 1); if(r(4) == 0) x[k] = std::floor(x[k]); if(wander && r(2)) x[k] += pickd({-0.5, -1, -2.25, 1, 3, (double)n[k], -(double)n[k]}); }
      if(!exact) for(int k = 0; k < 3; k++) x[k] += 0.0031;
      if(x[0] < 0) x[0] = -x[0];      // a radius
      float c[2] = {(float)(p0[0] + d[0] * x[0]), (float)(p0[1] + d[1] * x[1])}, ts = (float)(p0[2] + d[2] * x[2]), tstep = (float)(step * d[2]);
      x[0] = ((double)c[0] - p0[0]) / d[0]; x[1] = ((double)c[1] - p0[1]) / d[1]; x[2] = ((double)ts - p0[2]) / d[2]; step = (double)tstep / d[2];
      std::size_t room = x[2] < n[2] && x[2] >= 0 ? (std::size_t)((n[2] - x[2]) / step) + 1 : 2, num = wander ? 1 + r(room + 3) : r(room + 1);
      std::size_t from = r(3); auto s = fresh_signal(from + num + r(3)), before = s; std::vector<double> add(num, 0.0), mag(num, 0.0); bool oob = false;
      for(std::size_t i = 0; i < num; i++) { double y[3] = {x[0], x[1], x[2] + i * step}; int dm = domain(y, exact); if(dm == 0) return; if(dm < 0) { oob = true; continue; } Eval e = eval<K>(y); add[i] = w * (e.v[0] * src[0] + e.v[1] * src[1]); mag[i] = std::fabs(w) * (e.mag[0] * std::fabs(src[0]) + e.mag[1] * std::fabs(src[1])); }
      RZCoordVector rc{c[0], c[1]}; RZFieldVector sv{(float)src[0], (float)src[1]}; bool th = false;
            try { gf->accumulate_inner_product<K, float>(rc, ts, tstep, num, sv, s.begin() + from, (float)w, mode); } catch(std::exception&) { th = true; }
      if(mode == Green::RaiseError) ev_check(th == oob, "leaving the domain raises an error, staying inside does not"); else ev_check(!th, "leaving the domain is ignored on request");
      if(oob) ev_cover("outside"); else ev_cover("inside");
      if(!th) compare(s, before, add, mag, from, exact, exact ? 0 : 2e-4 * std::fabs(w) * (std::fabs(src[0]) + std::fabs(src[1])));
    }
    template <class K> void track(std::size_t maxsamp, bool longtrack, bool rough = false) {
      auto mode = r(4) == 0 ? Green::RaiseError : Green::Ignore; bool vertical = r(4) == 0;
      double R = n[0] * d[0], Z = n[1] * d[1]; double xs[3], xe[3]; auto q = [&](double top) { return 0.125 * (double)r((std::size_t)(top * 8)); };
      xs[0] = vertical ? 0 : q(R * 0.7); xs[1] = vertical ? 0 : 0.25 + q(R * 0.4); xs[2] = p0[1] + q(Z); xe[0] = vertical ? 0 : -q(R * 0.7); xe[1] = vertical ? 0 : xs[1]; xe[2] = p0[1] + q(Z);
      if(r(5) == 0) xe[2] += Z; if(r(5) == 0) xs[2] -= 0.5;
      double t0 = -2 + 0.5 * r(8), T = longtrack ? 90 + r(140) : r(3) ? (double)(1 + r(6)) : pickd({0.5, 1.5, 2.25, 0.75}); bool exact = T == std::floor(T) && std::fmod(64, T) == 0;
      std::size_t N = (std::size_t)std::ceil(T), num = r(maxsamp + 1); if(longtrack) num = maxsamp / 2 + r(maxsamp / 2); double ss = -3 + 0.5 * r(14), samp = longtrack ? pickd({0.5, 1, 2}) : pickd({0.5, 1, 0.25, 1.5}), ch = pickd({1, -1, 0.5}), w = pickd({1, 2, -0.5});
      if(rough) { exact = false; ss = (float)(-1 + 0.1 * r(20)); samp = (float)pickd({0.1, 0.3, 0.7, 1.0 / 3}); t0 = (float)(-1 + 0.1 * r(20)); T = (double)(float)(float)(t0 + pickd({1, 2, 0.7, 3.3})) - t0; N = (std::size_t)std::ceil((float)T); }
      std::vector<double> add(num, 0.0), mag(num, 0.0); bool oob = false; double slack = 0;
      for(std::size_t k = 0; k <= N; k++) {
        double tp = t0 + k * T / N, pos[3], vel[3]; for(int j = 0; j < 3; j++) { pos[j] = xs[j] + (xe[j] - xs[j]) * k / N; vel[j] = (xe[j] - xs[j]) / T; }
        double rr = std::hypot(pos[0], pos[1]), sr = rr > 0 ? (vel[0] * pos[0] + vel[1] * pos[1]) / rr * ch : 0, sz = vel[2] * ch, wt = -w * T / N * (k == 0 || k == N ? 0.5 : 1); slack += 1e-4 * std::fabs(wt) * (std::fabs(sr) + std::fabs(sz));
        for(std::size_t i = 0; i < num; i++) {
          double tau = ss + i * samp - tp; bool edge = !exact && std::fabs(tau) < 1e-3; if(tau < 0 && !edge) continue;
          double y[3] = {rr / d[0], (pos[2] - p0[1]) / d[1], (tau - p0[2]) / d[2]}; if(edge) { if(p0[2] == 0) y[2] = 0; else return; }
          bool inner = edge; int dm = domain(y, false); if(dm == 0 && ((p0[2] == 0 && (edge || (exact && tau == 0))) || (exact && y[2] == 0))) { double y2[3] = {y[0], y[1], 0.5}; dm = domain(y2, false); }
          if(dm == 0 || (dm < 0 && edge)) return; if(dm < 0) { oob = true; continue; }
          Eval e = eval<K>(y); double v = wt * (e.v[0] * sr + e.v[1] * sz), m = std::fabs(wt) * (e.mag[0] * std::fabs(sr) + e.mag[1] * std::fabs(sz));
          add[i] += v; mag[i] += m; if(inner) mag[i] += std::fabs(v) * 4000;     // may or may not count as causal in float arithmetic
        }
      }
      for(auto& m : mag) m *= 3;
      LineCurrentSegment seg(XYZCoordVector{(float)xs[0], (float)xs[1], (float)xs[2]}, XYZCoordVector{(float)xe[0], (float)xe[1], (float)xe[2]}, (float)t0, (float)(t0 + T), (float)ch);
      auto s = fresh_signal(num + r(3)), before = s; bool th = false;
      try { gf->apply_accumulate<K>(seg, (float)ss, (float)samp, num, s, mode, (float)w); } catch(std::exception&) { th = true; }
      if(mode == Green::RaiseError) ev_check(th == oob, "a track leaving the domain raises an error, one staying inside does not"); else ev_check(!th, "a track leaving the domain is ignored on request");
      if(oob) ev_cover("track leaves the domain"); else ev_cover("track inside the domain");
      if(!th && !(oob && mode == Green::RaiseError)) compare(s, before, add, mag, 0, false, slack);
    }
  };
  std::size_t seeds() { std::size_t seed = 0; for(int i = 0; i < 5; i++) seed = seed * 16 + ev_nat("seed", 0, 15); return seed; }
  void product(bool exact) { World w(seeds(), 4, 3, 12); ev_cover("reached"); for(int i = 0; i < 40; i++) if(w.onlylinear || w.r(3) == 0) w.inner<Linear>(exact); else w.inner<Keys>(exact); }
  void tracks() { World w(seeds(), 5, 4, 16); ev_cover("reached"); for(int i = 0; i < 20; i++) if(w.onlylinear || w.r(3) == 0) w.track<Linear>(25, false); else w.track<Keys>(25, false); }
  void rough() { World w(seeds(), 5, 4, 16); ev_cover("reached"); for(int i = 0; i < 30; i++) if(w.onlylinear || w.r(3) == 0) w.track<Linear>(25, false, true); else w.track<Keys>(25, false, true); }
  void blocks() { World w(seeds(), 4, 60, 120); ev_cover("reached"); for(int i = 0; i < 2; i++) w.track<Linear>(260, true); }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(samples, product(true)) C(samples_rough, product(false)) C(track, tracks()) C(track_rough, rough()) C(blocks, blocks())
#endif
