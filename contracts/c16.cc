#include "loops_contract.hh"
#include "NDVecArray.hh"
#include "NDVecArrayOperations.hh"
// Downsampling.  Q is an arbitrary coarse index whose grid point Q*factor lies in the range covered by the array.
namespace {
#ifdef EV_VERIFY
  template <std::size_t D> constexpr std::size_t LIM = D == 1 ? 1ull << 30 : D == 2 ? 1ull << 24 : 1ull << 18;
  constexpr std::size_t START = 1ull << 40, FACTOR = 1ull << 20;
#else
  template <std::size_t D> constexpr std::size_t LIM = D == 1 ? 20 : D == 2 ? 8 : 6;
  constexpr std::size_t START = 1 << 20, FACTOR = 9;
#endif
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  template <std::size_t D> void in_range(const Ind<D>& s, const Ind<D>& i) {   // lemma: the position of an index of the array is inside its storage
    std::size_t f = 0, n = 1;
    for(std::size_t k = 0; k < D; k++) { f = f * s[k] + i[k]; n = n * s[k]; ev_check(f + 1 <= n, "lemma: the position of an in-range index is below the number of elements"); }
  }
#ifdef EV_VERIFY
  // contracts of the range helpers: first = smallest x with x*factor >= start, last = smallest y with y*factor >= end
  template <std::size_t D> struct Q { static inline Ind<D> q, s, start, ds, first, last; static inline bool on = false; };
  template <std::size_t D> void ceil_spec(Ind<D>* r, const Ind<D>& x, const Ind<D>& f) {
    for(std::size_t k = 0; k < D; k++) { ev_check(f[k] > 0, "range helper precondition: positive factor"); ev_check(x[k] <= 2 * START, "range helper precondition: no overflow"); ev_check(f[k] <= FACTOR, "range helper precondition: no overflow");
      std::size_t y = ev_any(); ev_assume(y <= 2 * START); ev_assume(x[k] <= y * f[k]); ev_assume(y * f[k] < x[k] + f[k]); (*r)[k] = y; }
  }
  template <std::size_t D> void first_contract(Ind<D>* r, const Ind<D>& x, const Ind<D>& f) {
    ceil_spec<D>(r, x, f); if(!Q<D>::on) return;
    for(std::size_t k = 0; k < D; k++) { ev_check((*r)[k] <= Q<D>::q[k], "lemma: the coarse start is at or below every grid point"); Q<D>::first[k] = (*r)[k]; }
  }
  template <std::size_t D> void last_contract(Ind<D>* r, const Ind<D>& x, const Ind<D>& f) {
    ceil_spec<D>(r, x, f); if(!Q<D>::on) return;
    for(std::size_t k = 0; k < D; k++) { ev_check(Q<D>::q[k] < (*r)[k], "lemma: every grid point is below the coarse end");
      std::size_t n = (*r)[k] - Q<D>::first[k]; ev_check(n <= Q<D>::s[k], "lemma: not more grid points than input elements"); std::size_t m = ev_any(); ev_assume(m <= LIM<D>); ev_assume(m == n); (*r)[k] = Q<D>::first[k] + m; Q<D>::last[k] = (*r)[k]; }
  }
  template <std::size_t D> void helper(bool last) {
    Ind<D> x, f; for(std::size_t k = 0; k < D; k++) { x[k] = ev_nat("x", 0, 2 * START); f[k] = ev_nat("factor", 1, FACTOR); }
    Ind<D> r = last ? get_last_downsampled_ind_in_range(x, f) : get_first_downsampled_ind_in_range(x, f);
    ev_cover("reached");
    for(std::size_t k = 0; k < D; k++) { ev_check(r[k] <= 2 * START, "bounded"); ev_check(x[k] <= r[k] * f[k], "the coarse bound is not below the range bound"); ev_check(r[k] * f[k] < x[k] + f[k], "the coarse bound is the smallest such"); }
  }
#endif
#ifdef EV_VERIFY
  template <std::size_t D, std::size_t V> struct Ctx {
    static inline Ind<D> s, start, ds, dshape, dstart, w; static inline NDVecArray<float, D, V>* d; static inline std::size_t c;
    static inline Ind<D> q;
    static void before() { dshape = d->GetShape(); dstart = Q<D>::first; for(std::size_t k = 0; k < D; k++) { ev_check(dstart[k] <= q[k], "lemma: the grid point is in the output"); w[k] = q[k] - dstart[k]; ev_check(w[k] < dshape[k], "lemma: the grid point is in the output"); } in_range<D>(dshape, w); float* p = &(*d)[w][c]; ev_witness(p, 4); }
    static void each(const Ind<D>& q, const Ind<D>&) {      // lemmas for the coarse index q
      Ind<D> x, y;
      for(std::size_t k = 0; k < D; k++) { x[k] = q[k] - dstart[k]; ev_check(x[k] < dshape[k], "lemma: the coarse index is inside the output");
	ev_check(start[k] <= q[k] * ds[k], "lemma: the grid point is inside the input"); ev_check(q[k] * ds[k] < start[k] + s[k], "lemma: the grid point is inside the input"); y[k] = q[k] * ds[k] - start[k]; }
      in_range<D>(dshape, x); in_range<D>(s, y);
    }
    static void lemma(const Ind<D>& q, const Ind<D>&) {
      Ind<D> r; for(std::size_t k = 0; k < D; k++) r[k] = q[k] - dstart[k];
      std::size_t F = 0, G = 0;
      for(std::size_t p = 0; p < D; p++) {
        if(r[p] < w[p]) { for(std::size_t k = p; k < D; k++) { F = F * dshape[k] + r[k]; G = G * dshape[k] + w[k]; ev_check(F + 1 <= G, "lemma: positions are ordered"); } return; }
        if(w[p] < r[p]) { for(std::size_t k = p; k < D; k++) { F = F * dshape[k] + r[k]; G = G * dshape[k] + w[k]; ev_check(G + 1 <= F, "lemma: positions are ordered"); } return; }
        F = F * dshape[p] + r[p]; G = G * dshape[p] + w[p];
      }
    }
  };
#endif
  // ---- the reported shape: exactly the multiples in the range
#ifdef EV_VERIFY
  template <std::size_t D> struct H { static inline Ind<D> first, last; };
  template <std::size_t D> void first_rec(Ind<D>* r, const Ind<D>& x, const Ind<D>& f) { ceil_spec<D>(r, x, f); for(std::size_t k = 0; k < D; k++) H<D>::first[k] = (*r)[k]; }
  template <std::size_t D> void last_rec(Ind<D>* r, const Ind<D>& x, const Ind<D>& f) { ceil_spec<D>(r, x, f); for(std::size_t k = 0; k < D; k++) { H<D>::last[k] = (*r)[k]; ev_check(H<D>::first[k] <= (*r)[k], "lemma: the coarse end is not below the coarse start"); } }
  template <std::size_t D> void shape() {
    Ind<D> s, start, ds;
    for(std::size_t k = 0; k < D; k++) { s[k] = ev_nat("shape", 0, LIM<D>); start[k] = ev_nat("start", 0, START); ds[k] = ev_nat("factor", 1, FACTOR); }
    ev_replace("get_first_downsampled_ind_in_range<", (void*)&first_rec<D>); ev_replace("get_last_downsampled_ind_in_range<", (void*)&last_rec<D>);
    Ind<D> sh = Downsampling::get_downsampled_shape(start, s, ds);
    ev_cover("reached");
    for(std::size_t k = 0; k < D; k++) {      // (first, last: smallest coarse indices at or above start and start + shape)
      std::size_t n = H<D>::last[k] - H<D>::first[k];
      ev_check(sh[k] == n, "the shape is the number of coarse indices between the first and the last grid point");
    }
  }
#else
  template <std::size_t D> void shape() {                  // counts the multiples
    Ind<D> s, start, ds;
    for(std::size_t k = 0; k < D; k++) { s[k] = ev_nat("shape", 0, LIM<D>); start[k] = ev_nat("start", 0, START); ds[k] = ev_nat("factor", 1, FACTOR); }
    Ind<D> sh = Downsampling::get_downsampled_shape(start, s, ds);
    for(std::size_t k = 0; k < D; k++) { std::size_t n = 0; for(std::size_t g = start[k]; g < start[k] + s[k]; g++) n += g % ds[k] == 0; ev_check(sh[k] == n, "the shape is the number of grid points in the range"); }
  }
#endif
  // ---- downsampling an array: the element at the grid point, nothing else
  template <std::size_t D, std::size_t V> void downsample() {
    Ind<D> s, start, ds, q, i;
    for(std::size_t k = 0; k < D; k++) {
      s[k] = ev_nat("shape", 1, LIM<D>); start[k] = ev_nat("start", 0, START); ds[k] = ev_nat("factor", 1, FACTOR); 
#ifdef EV_VERIFY
      q[k] = ev_nat("Q", 0, 2 * START); ev_assume(start[k] <= q[k] * ds[k]); ev_assume(q[k] * ds[k] < start[k] + s[k]); 
#else
      std::size_t f = (start[k] + ds[k] - 1) / ds[k], l = (start[k] + s[k] + ds[k] - 1) / ds[k]; q[k] = f < l ? f + ev_nat("Q", 0, l - f - 1) : 0; 
#endif
      i[k] = q[k] * ds[k] - start[k];
    }
    std::size_t c = ev_nat("c", 0, V - 1);
    NDVecArray<float, D, V> a(s), d(Ind<D>(1u)); Ind<D> dstart;
    ev_havoc(&*a.data(), a.GetVolume() * 4, "a");
#ifdef EV_VERIFY
    in_range<D>(s, i);
    std::uint32_t want = ev::bits(a[i][c]);
    using X = Ctx<D, V>;
    using R = Q<D>; R::q = q; R::s = s; R::on = true;
    ev_replace("get_first_downsampled_ind_in_range<", (void*)&first_contract<D>); ev_replace("get_last_downsampled_ind_in_range<", (void*)&last_contract<D>);
    X::s = s; X::start = start; X::ds = ds; X::d = &d; X::c = c; X::q = q;
    evl::Ghost<D>::w = q; evl::Ghost<D>::before = X::before; evl::Ghost<D>::each = X::each; evl::Ghost<D>::lemma = X::lemma;
#endif
    ev_cover("reached");
    Downsampling::downsample(a, start, ds, d, dstart);
#ifdef EV_VERIFY
    for(std::size_t k = 0; k < D; k++) { ev_check(dstart[k] * ds[k] >= start[k], "the coarse start is at or after the start"); ev_check(dstart[k] == 0 || (dstart[k] - 1) * ds[k] < start[k], "no grid point is skipped at the start"); }
    ev_check(d.GetShape() == Q<D>::last - Q<D>::first, "the output has the reported shape");
    Ind<D> x; for(std::size_t k = 0; k < D; k++) { ev_check(dstart[k] <= q[k], "the grid point is in the output"); x[k] = q[k] - dstart[k]; ev_check(x[k] < d.GetShape()[k], "the grid point is in the output"); }
    ev_check(ev::bits(d[x][c]) == want, "the output holds the element at the grid point");
    ev_check(ev::bits(a[i][c]) == want, "the input is unchanged");
#else
    Ind<D> n;
    for(std::size_t k = 0; k < D; k++) { std::size_t m = 0, f = 0; while(f * ds[k] < start[k]) f = f + std::max<std::size_t>(1, (start[k] - f * ds[k]) / ds[k]);
      for(std::size_t g = start[k]; g < start[k] + s[k]; g++) m += g % ds[k] == 0;
      ev_check(dstart[k] == f, "the coarse start is the first grid point at or after the start"); n[k] = m; }
    ev_check(d.GetShape() == n, "the shape is the number of grid points in the range"); ev_check(Downsampling::get_downsampled_shape(start, s, ds) == n, "the reported shape agrees");
    std::size_t vol = 1; for(std::size_t k = 0; k < D; k++) vol *= n[k];
    if(vol) {
      Ind<D> x(0u);
      while(true) {
	Ind<D> src; for(std::size_t k = 0; k < D; k++) src[k] = (dstart[k] + x[k]) * ds[k] - start[k];
	for(std::size_t c = 0; c < V; c++) ev_check(ev::bits(d[x][c]) == ev::bits(a[src][c]), "the output holds the element at the grid point");
	std::size_t k = D; bool done = false; while(true) { if(k == 0) { done = true; break; } k--; if(++x[k] < n[k]) break; x[k] = 0; }
	if(done) break;
      }
    }
#endif
  }
  // ---- the pieces of a partition tile the downsampled whole (one axis; pieces may be empty)
  void tiling() {
    std::size_t b = ev_nat("start", 0, START), m = b + ev_nat("len1", 0, LIM<1>), e = m + ev_nat("len2", 0, LIM<1>), ds = ev_nat("factor", 1, FACTOR);
    Ind<1> d{ds};
    std::size_t n1 = Downsampling::get_downsampled_shape(Ind<1>{b}, Ind<1>{m - b}, d)[0], n2 = Downsampling::get_downsampled_shape(Ind<1>{m}, Ind<1>{e - m}, d)[0], n = Downsampling::get_downsampled_shape(Ind<1>{b}, Ind<1>{e - b}, d)[0];
    ev_cover("reached");
    ev_check(n1 + n2 == n, "the shapes of the pieces add up");
  }
}
extern "C" void ev_contract_shape_1() { shape<1>(); }
extern "C" void ev_contract_shape_2() { shape<2>(); }
extern "C" void ev_contract_shape_3() { shape<3>(); }
extern "C" void ev_contract_downsample_1_1() { downsample<1, 1>(); }
extern "C" void ev_contract_downsample_1_2() { downsample<1, 2>(); }
extern "C" void ev_contract_downsample_2_1() { downsample<2, 1>(); }
extern "C" void ev_contract_downsample_2_2() { downsample<2, 2>(); }
extern "C" void ev_contract_downsample_3_1() { downsample<3, 1>(); }
extern "C" void ev_contract_downsample_3_2() { downsample<3, 2>(); }
extern "C" void ev_contract_tiling() { tiling(); }
#ifndef EV_VERIFY
#endif
#ifdef EV_VERIFY
#define H(D) extern "C" void ev_contract_first_##D() { helper<D>(false); } extern "C" void ev_contract_last_##D() { helper<D>(true); }
H(1) H(2) H(3)
#endif
