// The index/chunk loops of IteratorUtils taken by their contract (verified in c02d.cc), for the verification of their callers.
// The real templates are renamed (real_*) before they are parsed; callers in the other headers see the contract.
//
// Contract of the chunk loop over [b, e) with chunk size cs > 0, W being an arbitrary index: if some axis is empty the worker is
// not called; otherwise it is called for boxes inside the range that are non-empty, at most cs long (shorter only at the end of
// the range) and start at b or at least cs past it; exactly one call is for a box that contains W, if W is in the range.
// Contract of the element loop: called for indices of the range in row-major order, exactly once for W.
#pragma once
#include "ev.hh"
#ifdef EV_VERIFY
#define index_loop_over_chunks real_index_loop_over_chunks
#define index_loop_over_elements real_index_loop_over_elements
#define index_loop_over_array_chunks real_index_loop_over_array_chunks
#define index_loop_over_array_elements real_index_loop_over_array_elements
#include "IteratorUtils.hh"
#undef index_loop_over_chunks
#undef index_loop_over_elements
#undef index_loop_over_array_chunks
#undef index_loop_over_array_elements
namespace evl {
  template <std::size_t D> struct Ghost {       // the arbitrary index, and a proof hook run for every box that does not contain it
    static inline Vector<std::size_t, D> w;
    static inline void (*lemma)(const Vector<std::size_t, D>& cb, const Vector<std::size_t, D>& ce) = nullptr;
    static inline void (*before)() = nullptr;                                                                  // run when a chunk loop begins
    static inline void (*each)(const Vector<std::size_t, D>& cb, const Vector<std::size_t, D>& ce) = nullptr;   // ... and one for every box
  };
  template <std::size_t D> bool in(const Vector<std::size_t, D>& b, const Vector<std::size_t, D>& e, const Vector<std::size_t, D>& x) { bool r = true; for(std::size_t k = 0; k < D; k++) r = r & (b[k] <= x[k]) & (x[k] < e[k]); return r; }
  template <std::size_t D> bool lex(const Vector<std::size_t, D>& x, const Vector<std::size_t, D>& y) {
    bool lt = false, eq = true; for(std::size_t k = 0; k < D; k++) { lt = lt | (eq & (x[k] < y[k])); eq = eq & (x[k] == y[k]); } return lt; }
}
namespace IteratorUtils {
  template <std::size_t D, class CallableT>
  constexpr void index_loop_over_chunks(const Vector<std::size_t, D>& begin, const Vector<std::size_t, D>& end, const Vector<std::size_t, D>& cs, CallableT&& worker) {
    const Vector<std::size_t, D>& w = evl::Ghost<D>::w;
    const Vector<std::size_t, D> b = begin, e = end;
    for(std::size_t k = 0; k < D; k++) if(b[k] >= e[k]) return;
    for(std::size_t k = 0; k < D; k++) ev_check(cs[k] > 0, "chunk loop precondition: the chunk size is positive");
    if(evl::Ghost<D>::before) evl::Ghost<D>::before();
    Vector<std::size_t, D> cb, ce;
    auto box = [&]() { for(std::size_t k = 0; k < D; k++) { std::size_t x = ev_any(), y = ev_any(); ev_assume(b[k] <= x); ev_assume(x < y); ev_assume(y <= e[k]); ev_assume(y - x <= cs[k]);
	ev_assume((y == e[k]) | (y - x == cs[k])); ev_assume((x == b[k]) | (x - b[k] >= cs[k])); cb[k] = x; ce[k] = y; } };
    auto other = [&]() { box(); ev_assume(!evl::in<D>(cb, ce, w)); if(evl::Ghost<D>::each) evl::Ghost<D>::each(cb, ce); if(evl::Ghost<D>::lemma) evl::Ghost<D>::lemma(cb, ce); worker(cb, ce); };
    while(ev_any_bool()) other();
    bool inr = true; for(std::size_t k = 0; k < D; k++) inr = inr & (b[k] <= w[k]) & (w[k] < e[k]);
    if(inr) {
      box(); for(std::size_t k = 0; k < D; k++) { ev_assume(cb[k] <= w[k]); ev_assume(w[k] < ce[k]); } if(evl::Ghost<D>::each) evl::Ghost<D>::each(cb, ce); worker(cb, ce);
      while(ev_any_bool()) other();
    }
  }
  template <std::size_t D, class CallableT>
  constexpr void index_loop_over_elements(const Vector<std::size_t, D>& begin, const Vector<std::size_t, D>& end, CallableT&& worker) {
    const Vector<std::size_t, D>& w = evl::Ghost<D>::w;
    const Vector<std::size_t, D> b = begin, e = end;
    for(std::size_t k = 0; k < D; k++) if(b[k] >= e[k]) return;
    if(evl::Ghost<D>::before) evl::Ghost<D>::before();
    Vector<std::size_t, D> cur;
    bool inr = true; for(std::size_t k = 0; k < D; k++) inr = inr & (b[k] <= w[k]) & (w[k] < e[k]);
    auto other = [&](bool before) { for(std::size_t k = 0; k < D; k++) { std::size_t x = ev_any(); ev_assume(b[k] <= x); ev_assume(x < e[k]); cur[k] = x; }
      if(inr) ev_assume(before ? evl::lex<D>(cur, w) : evl::lex<D>(w, cur)); else ev_assume(!(cur == w));
      if(evl::Ghost<D>::each) evl::Ghost<D>::each(cur, cur); if(evl::Ghost<D>::lemma) evl::Ghost<D>::lemma(cur, cur); worker(cur); };
    while(ev_any_bool()) other(true);
    if(inr) {
      for(std::size_t k = 0; k < D; k++) cur[k] = w[k];
      if(evl::Ghost<D>::each) evl::Ghost<D>::each(cur, cur);
      worker(cur);
      while(ev_any_bool()) other(false);
    }
  }
  template <template<typename, std::size_t, std::size_t> class ArrayT, typename T, std::size_t dims, std::size_t vec_dims, class CallableT>
  constexpr void index_loop_over_array_elements(const ArrayT<T, dims, vec_dims>& arr, CallableT&& worker) {
    Vector<std::size_t, dims> begin(0), end = arr.GetShape();
    index_loop_over_elements(begin, end, worker);
  }
  template <template<typename, std::size_t, std::size_t> class ArrayT, typename T, std::size_t dims, std::size_t vec_dims, class CallableT>
  constexpr void index_loop_over_array_chunks(const ArrayT<T, dims, vec_dims>& arr, const Vector<std::size_t, dims>& chunk_size, CallableT&& worker) {
    Vector<std::size_t, dims> begin(0u), end = arr.GetShape();
    index_loop_over_chunks(begin, end, chunk_size, worker);
  }
}
#else
#include "IteratorUtils.hh"
namespace evl {
  template <std::size_t D> struct Ghost { static inline Vector<std::size_t, D> w; static inline void (*before)() = nullptr; static inline void (*lemma)(const Vector<std::size_t, D>&, const Vector<std::size_t, D>&) = nullptr; static inline void (*each)(const Vector<std::size_t, D>&, const Vector<std::size_t, D>&) = nullptr; };
}
#endif
