#include "loops_contract.hh"
#include "NDVecArray.hh"
// Element loops of NDVecArray (and of views): the worker gets every index of the range once, each time with its own element.
// The chunk loop is taken by its contract.
namespace {
#ifdef EV_VERIFY
  template <std::size_t D> constexpr std::size_t LIM = D == 1 ? 1ull << 40 : D == 2 ? 1ull << 28 : D == 3 ? 1ull << 18 : 1ull << 14;
#else
  template <std::size_t D> constexpr std::size_t LIM = 6;
#endif
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  template <std::size_t D> Ind<D> shape(const char* n, std::size_t lo = 1) { Ind<D> s; for(std::size_t k = 0; k < D; k++) s[k] = ev_nat(n, lo, LIM<D>); return s; }
  template <std::size_t D> bool lex(const Ind<D>& x, const Ind<D>& y) {
    bool lt = false, eq = true; for(std::size_t k = 0; k < D; k++) { lt = lt | (eq & (x[k] < y[k])); eq = eq & (x[k] == y[k]); } return lt; }

  // over a range of indices of an array (view == false) or of a view that starts at `off` in a bigger array
  template <std::size_t D, std::size_t V> void range(bool view) {
    auto s = shape<D>("shape"); Ind<D> off(0u), vs = s;
    if(view) for(std::size_t k = 0; k < D; k++) { off[k] = ev_nat("off", 0, s[k] - 1); vs[k] = ev_nat("vshape", 1, s[k] - off[k]); }
    Ind<D> b, e, w; for(std::size_t k = 0; k < D; k++) { b[k] = ev_nat("begin", 0, vs[k] - 1); e[k] = ev_nat("end", b[k] + 1, vs[k]); w[k] = ev_nat("W", b[k], e[k] - 1); }
    NDVecArray<float, D, V> a(s);
    auto v = a.View(off, off + vs);
    const NDVecArray<float, D, V>& t = view ? v : a;
    evl::Ghost<D>::w = w;
    std::uint64_t seen = 0; ev_counter(&seen);
    auto worker = [&](const Ind<D>& ind, const VectorView<float, V>& el) {
      for(std::size_t k = 0; k < D; k++) { ev_check(b[k] <= ind[k], "the worker is only called for indices of the range"); ev_check(ind[k] < e[k], "the worker is only called for indices of the range"); }
      ev_check(&el[0] == &t[ind][0], "the worker gets the element that belongs to the index");
      for(std::size_t k = 0; k < D; k++) if(ind[k] != w[k]) return;
      seen++;
    };
    ev_cover("reached");
    t.index_loop_over_elements(b, e, worker);
    ev_check(seen == 1, "every index of the range is visited exactly once");
  }
  // the whole array: same as the range from zero to its shape
  template <std::size_t D, std::size_t V> void whole() {
    auto s = shape<D>("shape"); Ind<D> w; for(std::size_t k = 0; k < D; k++) w[k] = ev_nat("W", 0, s[k] - 1);
    NDVecArray<float, D, V> a(s);
    evl::Ghost<D>::w = w;
    std::uint64_t seen = 0; ev_counter(&seen);
    auto worker = [&](const Ind<D>& ind, const VectorView<float, V>& el) {
      for(std::size_t k = 0; k < D; k++) ev_check(ind[k] < s[k], "the worker is only called for indices of the array");
      ev_check(&el[0] == &a[ind][0], "the worker gets the element that belongs to the index");
      for(std::size_t k = 0; k < D; k++) if(ind[k] != w[k]) return;
      seen++;
    };
    ev_cover("reached");
    a.index_loop_over_elements(worker);
    ev_check(seen == 1, "every index of the array is visited exactly once");
  }
}
#define ALL(D, V) extern "C" void ev_contract_range_##D##_##V() { range<D, V>(false); } extern "C" void ev_contract_viewrange_##D##_##V() { range<D, V>(true); } extern "C" void ev_contract_whole_##D##_##V() { whole<D, V>(); }
ALL(1, 1) ALL(1, 2) ALL(2, 1) ALL(2, 2) ALL(3, 1) ALL(3, 2) ALL(4, 1)
