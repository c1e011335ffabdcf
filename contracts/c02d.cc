#include "ev.hh"
#include "NDVecArray.hh"
// Index and chunk loops, one dimension at a time (deductive only): the loop over dimension K is verified with the loop over
// the remaining dimensions K+1.. taken by its contract; the loop over the last dimension is verified as it is.
// W is an arbitrary index of the (non-empty) range.
#ifdef EV_VERIFY
namespace {
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  constexpr std::size_t INF = std::numeric_limits<std::size_t>::max();
  template <std::size_t D, std::size_t K> bool tail_is(const Ind<D>& x, const Ind<D>& y) { bool r = true; for(std::size_t k = K; k < D; k++) r = r & (x[k] == y[k]); return r; }
  template <std::size_t D, std::size_t K> bool tail_before(const Ind<D>& x, const Ind<D>& y) {
    bool lt = false, eq = true; for(std::size_t k = K; k < D; k++) { lt = lt | (eq & (x[k] < y[k])); eq = eq & (x[k] == y[k]); } return lt; }
  template <std::size_t D, std::size_t K> bool tail_in(const Ind<D>& b, const Ind<D>& e, const Ind<D>& x) { bool r = true; for(std::size_t k = K; k < D; k++) r = r & (b[k] <= x[k]) & (x[k] < e[k]); return r; }
  template <std::size_t D> struct Range { Ind<D> b, e, w;
    Range() { for(std::size_t k = 0; k < D; k++) { b[k] = ev_nat("begin", 0, EV_BIG); e[k] = ev_nat("end", b[k] + 1, 2 * EV_BIG); w[k] = ev_nat("W", b[k], e[k] - 1); } } };

  // ---- element loop over the dimensions K..D-1 (cur[0..K-1] fixed by the caller)
  //   calls the worker with cur[K..] in row-major order through [begin, end): every index but W any way it likes before (after) W, W once
  template <std::size_t K, std::size_t D, class F> void elements_contract(const Ind<D>& b, const Ind<D>& e, Ind<D>& cur, F&& worker) {
    const Ind<D>& w = *worker.w;
    for(std::size_t k = K; k < D; k++) { ev_check(b[k] < e[k], "callee precondition: the range is not empty"); ev_check(b[k] <= w[k] && w[k] < e[k], "callee precondition: W is an index of the range"); }
    while(ev_any_bool()) { for(std::size_t k = K; k < D; k++) cur[k] = ev_any(); ev_assume(tail_in<D, K>(b, e, cur)); ev_assume(tail_before<D, K>(cur, w)); worker(cur); }
    for(std::size_t k = K; k < D; k++) cur[k] = w[k];
    worker(cur);
    while(ev_any_bool()) { for(std::size_t k = K; k < D; k++) cur[k] = ev_any(); ev_assume(tail_in<D, K>(b, e, cur)); ev_assume(tail_before<D, K>(w, cur)); worker(cur); }
    for(std::size_t k = K; k < D; k++) cur[k] = ev_any();
  }
  template <std::size_t K, std::size_t D> struct Elements {
    struct Worker {
      const Ind<D>* b; const Ind<D>* e; const Ind<D>* w; const Ind<D>* fixed; std::uint64_t* seen;
      bool is_w(const Ind<D>& cur) const { for(std::size_t k = K; k < D; k++) if(cur[k] != (*w)[k]) return false; return true; }
      void operator()(const Ind<D>& cur) const {
        for(std::size_t k = 0; k < K; k++) ev_check(cur[k] == (*fixed)[k], "indices of the outer dimensions are left alone");
        for(std::size_t k = K; k < D; k++) { ev_check((*b)[k] <= cur[k], "the worker is only called for indices of the range"); ev_check(cur[k] < (*e)[k], "the worker is only called for indices of the range"); }
        if(is_w(cur)) (*seen)++;
        else if(*seen > 0) ev_check(tail_before<D, K>(*w, cur), "indices come in row-major order");
        else ev_check(tail_before<D, K>(cur, *w), "indices come in row-major order");
      }
    };
    static void run() {
      Range<D> r; Ind<D> cur; for(std::size_t k = 0; k < D; k++) cur[k] = ev_nat("cur", 0, 2 * EV_BIG);
      Ind<D> fixed = cur; std::uint64_t seen = 0; ev_counter(&seen);
      Worker worker{&r.b, &r.e, &r.w, &fixed, &seen};
      if constexpr(K + 1 < D) {
        ev_replace(K == 0 ? "index_loop_over_elements_dimension<1ul, " : K == 1 ? "index_loop_over_elements_dimension<2ul, " : "index_loop_over_elements_dimension<3ul, ", (void*)&elements_contract<K + 1, D, Worker&>);
      }
      ev_cover("reached");
      IteratorUtils::index_loop_over_elements_dimension<K, D, std::size_t, Worker&>(r.b, r.e, cur, worker);
      ev_check(seen == 1, "every index of the range is visited exactly once");
    }
    // the entry point: for D == 2 a loop of its own, otherwise the loop over dimension 0
    static void top() requires(K == 0) {
      Range<D> r; Ind<D> fixed; std::uint64_t seen = 0; ev_counter(&seen);
      Worker worker{&r.b, &r.e, &r.w, &fixed, &seen};
      ev_replace("index_loop_over_elements_dimension<0ul, ", (void*)&elements_contract<0, D, Worker&>);
      ev_cover("reached");
      IteratorUtils::index_loop_over_elements(r.b, r.e, worker);
      ev_check(seen == 1, "every index of the range is visited exactly once");
    }
  };

  // ---- chunk loop over the dimensions K..D-1
  template <std::size_t K, std::size_t D, class F> void chunks_contract(const Ind<D>& b, const Ind<D>& e, const Ind<D>& cs, Ind<D>& cb, Ind<D>& ce, F&& worker) {
    const Ind<D>& w = *worker.w;
    for(std::size_t k = K; k < D; k++) { ev_check(cs[k] > 0, "callee precondition: the chunk size is positive"); ev_check(b[k] <= w[k] && w[k] < e[k], "callee precondition: W is an index of the range"); }
    auto box = [&]() { for(std::size_t k = K; k < D; k++) { std::size_t x = ev_any(), y = ev_any(); ev_assume(b[k] <= x); ev_assume(x < y); ev_assume(y <= e[k]); ev_assume(y - x <= cs[k]); ev_assume((y == e[k]) | (y - x == cs[k])); ev_assume((x == b[k]) | (x - b[k] >= cs[k])); cb[k] = x; ce[k] = y; } };
    while(ev_any_bool()) { box(); ev_assume(!tail_in<D, K>(cb, ce, w)); worker(cb, ce); }
    box(); for(std::size_t k = K; k < D; k++) { ev_assume(cb[k] <= w[k]); ev_assume(w[k] < ce[k]); } worker(cb, ce);
    while(ev_any_bool()) { box(); ev_assume(!tail_in<D, K>(cb, ce, w)); worker(cb, ce); }
    for(std::size_t k = K; k < D; k++) { cb[k] = ev_any(); ce[k] = ev_any(); }
  }
  template <std::size_t K, std::size_t D> struct Chunks {
    struct Worker {
      const Ind<D>* b; const Ind<D>* e; const Ind<D>* cs; const Ind<D>* w; const Ind<D>* fb; const Ind<D>* fe; std::uint64_t* seen;
      void operator()(const Ind<D>& cb, const Ind<D>& ce) const {
        for(std::size_t k = 0; k < K; k++) ev_check((cb[k] == (*fb)[k]) & (ce[k] == (*fe)[k]), "chunk limits of the outer dimensions are left alone");
        for(std::size_t k = K; k < D; k++) {
          ev_check(cb[k] < ce[k], "every chunk is non-empty");
          ev_check(((*b)[k] <= cb[k]) & (ce[k] <= (*e)[k]), "every chunk lies inside the range");
          ev_check(ce[k] - cb[k] <= (*cs)[k], "no chunk is longer than requested");
          ev_check((ce[k] == (*e)[k]) | (ce[k] - cb[k] == (*cs)[k]), "only chunks at the end of the range are cut short");
          ev_check((cb[k] == (*b)[k]) | (cb[k] - (*b)[k] >= (*cs)[k]), "only the first chunk starts less than a chunk size after the beginning");
        }
        for(std::size_t k = K; k < D; k++) if(!((cb[k] <= (*w)[k]) & ((*w)[k] < ce[k]))) return;
        (*seen)++;
      }
    };
    static void run() {
      Range<D> r; Ind<D> cs, cb, ce; for(std::size_t k = 0; k < D; k++) { cs[k] = ev_nat("chunk", 1, INF); cb[k] = ev_nat("cb", 0, 2 * EV_BIG); ce[k] = ev_nat("ce", 0, 2 * EV_BIG); }
      Ind<D> fb = cb, fe = ce; std::uint64_t seen = 0; ev_counter(&seen);
      Worker worker{&r.b, &r.e, &cs, &r.w, &fb, &fe, &seen};
      if constexpr(K + 1 < D)
        ev_replace(K == 0 ? "index_loop_over_chunks_dimension<1ul, " : K == 1 ? "index_loop_over_chunks_dimension<2ul, " : "index_loop_over_chunks_dimension<3ul, ", (void*)&chunks_contract<K + 1, D, Worker&>);
      ev_cover("reached");
      IteratorUtils::index_loop_over_chunks_dimension<K, D, std::size_t, Worker&>(r.b, r.e, cs, cb, ce, worker);
      ev_check(seen == 1, "every index of the range lies in exactly one chunk");
    }
    // the entry point hands its arguments over to the loop over dimension 0, once
    static void pass(const Ind<D>& b, const Ind<D>& e, const Ind<D>& cs, Ind<D>& cb, Ind<D>& ce, Worker& w) {
      ev_check(b == *w.b, "same range"); ev_check(e == *w.e, "same range"); ev_check(cs == *w.cs, "same chunk size"); (*w.seen)++; }
    static void top() requires(K == 0) {
      Range<D> r; Ind<D> cs; for(std::size_t k = 0; k < D; k++) cs[k] = ev_nat("chunk", 1, INF);
      std::uint64_t seen = 0;
      Worker worker{&r.b, &r.e, &cs, &r.w, nullptr, nullptr, &seen};
      ev_replace("index_loop_over_chunks_dimension<0ul, ", (void*)&pass);
      ev_cover("reached");
      IteratorUtils::index_loop_over_chunks(r.b, r.e, cs, worker);
      ev_check(seen == 1, "the chunk loop starts once");
    }
  };

  // ---- arbitrary (possibly empty) ranges: the worker is only ever called inside the range
  template <std::size_t K, std::size_t D, class F> void any_elements_contract(const Ind<D>& b, const Ind<D>& e, Ind<D>& cur, F&& worker) {
    while(ev_any_bool()) { for(std::size_t k = K; k < D; k++) cur[k] = ev_any(); for(std::size_t k = K; k < D; k++) { ev_assume(b[k] <= cur[k]); ev_assume(cur[k] < e[k]); } worker(cur); }
    for(std::size_t k = K; k < D; k++) cur[k] = ev_any();
  }
  template <std::size_t K, std::size_t D, class F> void any_chunks_contract(const Ind<D>& b, const Ind<D>& e, const Ind<D>& cs, Ind<D>& cb, Ind<D>& ce, F&& worker) {
    for(std::size_t k = K; k < D; k++) ev_check(cs[k] > 0, "callee precondition: the chunk size is positive");
    while(ev_any_bool()) { for(std::size_t k = K; k < D; k++) { cb[k] = ev_any(); ce[k] = ev_any(); ev_assume(b[k] <= cb[k]); ev_assume(cb[k] < ce[k]); ev_assume(ce[k] <= e[k]); } worker(cb, ce); }
    for(std::size_t k = K; k < D; k++) { cb[k] = ev_any(); ce[k] = ev_any(); }
  }
  template <std::size_t K, std::size_t D> struct Any {
    struct EWorker { const Ind<D>* b; const Ind<D>* e; const Ind<D>* fixed;
      void operator()(const Ind<D>& cur) const {
        for(std::size_t k = 0; k < K; k++) ev_check(cur[k] == (*fixed)[k], "indices of the outer dimensions are left alone");
        for(std::size_t k = K; k < D; k++) { ev_check((*b)[k] <= cur[k], "the worker is only called for indices of the range"); ev_check(cur[k] < (*e)[k], "the worker is only called for indices of the range"); } } };
    struct CWorker { const Ind<D>* b; const Ind<D>* e; const Ind<D>* fb; const Ind<D>* fe;
      void operator()(const Ind<D>& cb, const Ind<D>& ce) const {
        for(std::size_t k = 0; k < K; k++) ev_check((cb[k] == (*fb)[k]) & (ce[k] == (*fe)[k]), "chunk limits of the outer dimensions are left alone");
        for(std::size_t k = K; k < D; k++) { ev_check(cb[k] < ce[k], "every chunk is non-empty"); ev_check(((*b)[k] <= cb[k]) & (ce[k] <= (*e)[k]), "every chunk lies inside the range"); } } };
    static void elements() {
      Ind<D> b, e, cur; for(std::size_t k = 0; k < D; k++) { b[k] = ev_nat("begin", 0, EV_BIG); e[k] = ev_nat("end", 0, EV_BIG); cur[k] = ev_nat("cur", 0, EV_BIG); }
      Ind<D> fixed = cur; EWorker worker{&b, &e, &fixed};
      if constexpr(K + 1 < D) ev_replace(K == 0 ? "index_loop_over_elements_dimension<1ul, " : K == 1 ? "index_loop_over_elements_dimension<2ul, " : "index_loop_over_elements_dimension<3ul, ", (void*)&any_elements_contract<K + 1, D, EWorker&>);
      ev_cover("reached");
      if constexpr(K == 0 && D == 2) IteratorUtils::index_loop_over_elements(b, e, worker);
      else IteratorUtils::index_loop_over_elements_dimension<K, D, std::size_t, EWorker&>(b, e, cur, worker);
    }
    static void chunks() {
      Ind<D> b, e, cs, cb, ce; for(std::size_t k = 0; k < D; k++) { b[k] = ev_nat("begin", 0, EV_BIG); e[k] = ev_nat("end", 0, EV_BIG); cs[k] = ev_nat("chunk", 1, INF); cb[k] = ev_nat("cb", 0, EV_BIG); ce[k] = ev_nat("ce", 0, EV_BIG); }
      Ind<D> fb = cb, fe = ce; CWorker worker{&b, &e, &fb, &fe};
      if constexpr(K + 1 < D) ev_replace(K == 0 ? "index_loop_over_chunks_dimension<1ul, " : K == 1 ? "index_loop_over_chunks_dimension<2ul, " : "index_loop_over_chunks_dimension<3ul, ", (void*)&any_chunks_contract<K + 1, D, CWorker&>);
      ev_cover("reached");
      IteratorUtils::index_loop_over_chunks_dimension<K, D, std::size_t, CWorker&>(b, e, cs, cb, ce, worker);
    }
  };
}
#define DIM(D, K) extern "C" void ev_contract_elements_##D##_dim##K() { Elements<K, D>::run(); } extern "C" void ev_contract_chunks_##D##_dim##K() { Chunks<K, D>::run(); } \
  extern "C" void ev_contract_anyelements_##D##_dim##K() { Any<K, D>::elements(); } extern "C" void ev_contract_anychunks_##D##_dim##K() { Any<K, D>::chunks(); }
#define TOP(D) extern "C" void ev_contract_elements_##D##_top() { Elements<0, D>::top(); } extern "C" void ev_contract_chunks_##D##_top() { Chunks<0, D>::top(); }
DIM(1, 0) DIM(2, 0) DIM(2, 1) DIM(3, 0) DIM(3, 1) DIM(3, 2) DIM(4, 0) DIM(4, 1) DIM(4, 2) DIM(4, 3)
TOP(1) TOP(2) TOP(3) TOP(4)
#endif
