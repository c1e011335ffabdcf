#include "ev.hh"
#include <filesystem>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "clang_compat.hh"
#include "DistributedNDVecArray.hh"
#include "Symmetry.hh"
#include "Current.hh"
#include "Quadrature.hh"
// The inner product over samples, for one arbitrary sample S; floating point is exact real arithmetic (deductive only).
#ifdef EV_VERIFY
namespace evs {
  // the output: an iterator that knows its position; S is an arbitrary sample
  struct Res { };
  struct Out { static inline std::size_t S, pos; static inline std::size_t end, looked; static inline bool hit, data; static inline double value; };
  struct Cell { std::size_t i; Cell& operator+=(float v) {
    ev_check(i == Out::pos, "the sample at hand is accumulated"); ev_check(!Out::hit, "no sample is accumulated twice"); ev_check(i < Out::end, "samples of chunks with data are accumulated");
    if(i == Out::S) ev_check((double)v == Out::value, "a sample is the inner product of field and source, times the weight");
    Out::hit = true; return *this; } };
  struct It { using iterator_category = std::random_access_iterator_tag; using value_type = Res; using difference_type = std::ptrdiff_t; using pointer = Res*; using reference = Cell;
    std::size_t i; Cell operator*() const { return Cell{i}; } Cell operator[](std::size_t n) const { return Cell{i + n}; }
    It& operator+=(difference_type n) { if(Out::pos < Out::end) { ev_check(n == 1, "every sample of a chunk with data is accumulated"); ev_check(Out::hit, "every sample of a chunk with data is accumulated"); } else if(Out::looked == Out::pos + 1) ev_check(!Out::data, "every sample of a chunk with data is accumulated"); Out::hit = false; i += n; Out::pos = i; return *this; } It& operator++() { return *this += 1; } It operator++(int) { It r = *this; *this += 1; return r; } It operator+(std::size_t n) const { return It{i + n}; } It& operator--() { i--; return *this; } };
}
namespace std { template <> struct vector<evs::Res> { using iterator = evs::It; std::size_t n; iterator begin() { return iterator{0}; } std::size_t size() const { return n; } }; }
#define private public
#include "GreensFunction.hh"
#undef private
namespace {
  using GF = CylindricalGreensFunction; using Meta = ChunkMetadata<3>; using I3 = Vector<std::size_t, 3>; using Out = evs::Out; using A3 = NDVecArray<float, 3, 2>; using A1 = NDVecArray<float, 1, 2>;
  enum Mode { NORMAL, IGNORE };
  // the index: any chunk that contains the asked-for place, or none
  struct W {
    static inline double f[2], t0, dt, g[2]; static inline std::size_t N, calls; static inline Meta* last; static inline A3* chunk; static inline std::size_t support;
    static const Meta* get(void*, const I3& ind) {
      double t = t0 + (double)Out::pos * dt;
      for(std::size_t k = 0; k < 3; k++) { double x = k < 2 ? f[k] : t; ev_check(x >= 0, "an index is looked up inside of the grid only"); ev_check((double)ind[k] <= x, "the chunk of the sample at hand is looked up"); ev_check((double)ind[k] + 1 > x, "the chunk of the sample at hand is looked up"); }
      ev_check(!Out::hit, "every sample is stepped over"); Out::looked = Out::pos + 1; if(ev_any_bool()) { Out::data = false; last = nullptr; return nullptr; }
      Meta* m = last = (Meta*)new char[sizeof(Meta)];
      m->overlap = ev_any(); ev_assume(m->overlap >= support); ev_assume(m->overlap <= 64); m->chunk_type = ev_any_bool() ? ChunkType::all_null : ChunkType::specified;
      for(std::size_t k = 0; k < 3; k++) { std::size_t a = ev_any(), b = ev_any(); ev_assume(a <= ind[k]); ev_assume(ind[k] < b); ev_assume(b <= 1u << 20); m->start_ind[k] = a; m->end_ind[k] = b; m->shape[k] = b - a; m->loc_ind_offset[k] = a - m->overlap; }
      Out::data = m->chunk_type == ChunkType::specified; return m;
    }
    static const A3& retrieve(void*, const Meta& m) { ev_check(&m == last, "the data of the chunk at hand"); ev_check(m.chunk_type == ChunkType::specified, "only chunks with data are read"); return *chunk; }
    static void interp(const A3& a, A1& r, const Vector<scalar_t, 2>& outer, scalar_t start, scalar_t delta, std::size_t n) {
      ev_check(&a == chunk, "the chunk at hand is interpolated"); ev_check(n >= 1, "something is asked for"); ev_check(Out::pos + n <= N, "no more than the requested samples");
      ev_check((double)delta == dt, "the requested sampling interval");
      for(std::size_t k = 0; k < 2; k++) ev_check((double)outer[k] == f[k] - (double)last->start_ind[k] + (double)last->overlap, "the place of the samples in the chunk");
      ev_check((double)start == t0 + (double)Out::pos * dt - (double)last->start_ind[2] + (double)last->overlap, "the place of the samples in the chunk");
      ev_check((double)start + (double)(n - 1) * dt <= (double)(last->end_ind[2] - last->start_ind[2] + last->overlap), "no samples behind the end of the chunk");
      Out::end = Out::pos + n;
      if(r.GetShape()[0] < n) r.resize(n);    // (the real one always does)
      std::size_t j = Out::S - Out::pos; if((Out::S >= Out::pos) & (j < n)) { Vector<scalar_t, 2> v; v[0] = (scalar_t)g[0]; v[1] = (scalar_t)g[1]; r[j] = v; }
    }
  };
  template <class K> void inner(Green::OutOfBoundsBehavior mode) {
    ev_real_mode();
    alignas(GF) static char mem[sizeof(GF)]; GF& gf = *(GF*)mem;
    new(&gf.m_meta) CylindricalGreensFunctionMetadata();
    scalar_t d[3], p0[3]; for(std::size_t k = 0; k < 3; k++) { d[k] = (scalar_t)ev_real("interval"); ev_assume(d[k] > 0); p0[k] = (scalar_t)ev_real("start"); gf.m_meta.sample_interval_rzt[k] = d[k]; gf.m_meta.start_pos_rzt[k] = p0[k]; if(k < 2) { gf.m_meta.sample_interval_rz[k] = d[k]; gf.m_meta.start_pos_rz[k] = p0[k]; } }
    scalar_t c[2]; RZCoordVector rz; for(std::size_t k = 0; k < 2; k++) { c[k] = (scalar_t)ev_real("coordinate"); rz[k] = c[k]; W::f[k] = (double)((c[k] - p0[k]) / d[k]); ev_assume(W::f[k] < 1 << 20); }
    scalar_t t = (scalar_t)ev_real("t"), dt = (scalar_t)ev_real("dt"), w = (scalar_t)ev_real("weight"); ev_assume(dt > 0); W::t0 = (double)((t - p0[2]) / d[2]); W::dt = (double)(dt / d[2]); ev_assume(W::t0 >= 0); ev_assume(W::dt > 1e-6);
    W::N = ev_nat("N", 1, 1u << 20); Out::S = ev_nat("S", 0, W::N - 1); Out::pos = 0; Out::end = 0; Out::hit = Out::data = false; Out::looked = 0; W::support = K::support;
    ev_assume(W::t0 + (double)W::N * W::dt < 1 << 20);
    RZFieldVector src; scalar_t s[2]; for(std::size_t k = 0; k < 2; k++) { s[k] = (scalar_t)ev_real("source"); src[k] = s[k]; W::g[k] = ev_real("field"); }
    Out::value = (W::g[0] * s[0] + W::g[1] * s[1]) * w;
    W::chunk = (A3*)new char[sizeof(A3)];
    ev_replace("::GetChunk(", (void*)&W::get); ev_replace("::RetrieveChunk(", (void*)&W::retrieve); ev_replace("Interpolation::interpolate<", (void*)&W::interp);
    if(mode == Green::OutOfBoundsBehavior::RaiseError) ev_throws_if(true);
    ev_cover("reached");
    gf.accumulate_inner_product<K, evs::Res>(rz, t, dt, W::N, src, evs::It{0}, w, mode);
    ev_check(Out::pos == W::N, "the result is advanced over all samples");
  }
}
extern "C" void ev_contract_inner_keys_raise() { inner<Interpolation::Kernel::Keys>(Green::OutOfBoundsBehavior::RaiseError); }
extern "C" void ev_contract_inner_keys_ignore() { inner<Interpolation::Kernel::Keys>(Green::OutOfBoundsBehavior::Ignore); }
extern "C" void ev_contract_inner_linear_ignore() { inner<Interpolation::Kernel::Linear>(Green::OutOfBoundsBehavior::Ignore); }
#endif
