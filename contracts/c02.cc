#include "ev.hh"
#include "NDVecArray.hh"
// Index and chunk iteration.  W is an arbitrary index; `seen` counts the calls that concern it.
namespace {
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  template <std::size_t D> Ind<D> vec(const char* n, std::size_t lo, std::size_t hi) { Ind<D> v; for(std::size_t k = 0; k < D; k++) v[k] = ev_nat(n, lo, hi); return v; }
  template <std::size_t D> bool inside(const Ind<D>& b, const Ind<D>& e, const Ind<D>& x) { bool r = true; for(std::size_t k = 0; k < D; k++) r = r & (b[k] <= x[k]) & (x[k] < e[k]); return r; }
  template <std::size_t D> bool before(const Ind<D>& x, const Ind<D>& y) {   // row-major order
    bool lt = false, eq = true; for(std::size_t k = 0; k < D; k++) { lt = lt | (eq & (x[k] < y[k])); eq = eq & (x[k] == y[k]); } return lt; }

  template <std::size_t D> struct Range { Ind<D> b, e, w;      // a non-empty range and an arbitrary index of it
    Range() { for(std::size_t k = 0; k < D; k++) { b[k] = ev_nat("begin", 0, EV_BIG); e[k] = ev_nat("end", b[k] + 1, 2 * EV_BIG); w[k] = ev_nat("W", b[k], e[k] - 1); } } };

  // ---- element loop
  template <std::size_t D> void elements() {
    Range<D> r;
    std::uint64_t seen = 0; ev_counter(&seen);
    auto worker = [&](const Ind<D>& cur) {
      ev_check(inside<D>(r.b, r.e, cur), "the worker is only called for indices of the range");
      if(cur == r.w) seen++;
      else if(seen > 0) ev_check(before<D>(r.w, cur), "indices come in row-major order");
      else ev_check(before<D>(cur, r.w), "indices come in row-major order");
    };
    ev_cover("reached");
    IteratorUtils::index_loop_over_elements(r.b, r.e, worker);
    ev_check(seen == 1, "every index of the range is visited exactly once");
  }

  // ---- chunk loop
#ifdef EV_VERIFY
  inline std::size_t chunk_extent() { return ev_nat("chunk", 1, std::numeric_limits<std::size_t>::max()); }
#else
  inline std::size_t chunk_extent() { std::size_t c = ev_nat("chunk", 1, EV_BIG); return ev_nat("unlimited", 0, 3) == 3 ? std::numeric_limits<std::size_t>::max() - (c - 1) : c; }
#endif
  template <std::size_t D> void check_box(const Ind<D>& b, const Ind<D>& e, const Ind<D>& cs, const Ind<D>& cb, const Ind<D>& ce) {
    for(std::size_t k = 0; k < D; k++) {
      ev_check(cb[k] < ce[k], "every chunk is non-empty");
      ev_check(b[k] <= cb[k] && ce[k] <= e[k], "every chunk lies inside the range");
      ev_check(ce[k] - cb[k] <= cs[k], "no chunk is longer than requested");
      ev_check(ce[k] == e[k] || ce[k] - cb[k] == cs[k], "only chunks at the end of the range are cut short");
    }
  }
  template <std::size_t D> void chunks() {
    Range<D> r; Ind<D> cs; for(std::size_t k = 0; k < D; k++) cs[k] = chunk_extent();
    std::uint64_t seen = 0; ev_counter(&seen);
    auto worker = [&](const Ind<D>& cb, const Ind<D>& ce) {
      check_box<D>(r.b, r.e, cs, cb, ce);
      for(std::size_t k = 0; k < D; k++) { if(r.w[k] < cb[k]) return; if(ce[k] <= r.w[k]) return; }
      seen++;
    };
    ev_cover("reached");
    IteratorUtils::index_loop_over_chunks(r.b, r.e, cs, worker);
    ev_check(seen == 1, "every index of the range lies in exactly one chunk");
  }
}
extern "C" void ev_contract_elements_1() { elements<1>(); }
extern "C" void ev_contract_elements_2() { elements<2>(); }
extern "C" void ev_contract_chunks_1() { chunks<1>(); }
extern "C" void ev_contract_chunks_2() { chunks<2>(); }
#ifndef EV_VERIFY      // higher dimensions are verified one dimension at a time (c02d.cc); natively the whole loops
extern "C" void ev_contract_elements_3() { elements<3>(); }
extern "C" void ev_contract_elements_4() { elements<4>(); }
extern "C" void ev_contract_chunks_3() { chunks<3>(); }
extern "C" void ev_contract_chunks_4() { chunks<4>(); }
#endif
