#include "ev.hh"
#include <filesystem>
#include <list>
#include "Common.hh"
#include "Vector.hh"
#define private public
#include "RStarTree.hh"
#undef private
// The doubly-linked slot lists of the pool, for pools of any size and any content of the lists.
// Ghost state: list[i] (0 free, 1 in use, 2 none) and rank[i] (position in its list).  The representation invariant WF is
// assumed at the slots an operation reads and at an arbitrary witness slot, and shown at the witness slot afterwards.
#ifdef EV_VERIFY
namespace {
  using P = MemoryPool<int>; constexpr std::size_t NONE = P::INVALID_SLOT, LIM = 1ull << 40;
  using G = std::vector<std::uint64_t>;
  inline bool imp(bool a, bool b) { return !a | b; }
  struct S {
    std::size_t n; P p; G lr; std::size_t len[2]; std::size_t list(std::size_t i) const { return lr[2 * i]; } std::size_t rank(std::size_t i) const { return lr[2 * i + 1]; }
    std::size_t& start(std::size_t l) { return l ? p.m_alloc_start : p.m_free_start; }
    std::size_t& end(std::size_t l) { return l ? p.m_alloc_end : p.m_free_end; }
    S() : n(ev_nat("n", 1, LIM)), p(1), lr(2 * n) {
      p.m_slots.resize(n); p.m_data.resize(n);
      ev_havoc(p.m_slots.data(), n * sizeof(p.m_slots[0]), "slots"); ev_havoc(lr.data(), n * 16, "list and rank"); ev_witness_src(lr.data());
      ends(0, "free"); ends(1, "alloc");
    }
    void ends(std::size_t l, const char* nm) {
      len[l] = ev_nat(nm, 0, n);
      if(len[l] == 0) { start(l) = NONE; end(l) = NONE; }
      else { std::size_t s = ev_nat("start", 0, n - 1), e = ev_nat("end", 0, n - 1); start(l) = s; end(l) = e; ev_assume(list(s) == l); ev_assume(list(e) == l); ev_assume(rank(s) == 0); ev_assume(rank(e) == len[l] - 1); wf(s); wf(e); }
    }
    // the representation invariant at slot i
    void wf(std::size_t i) {
      std::size_t l = list(i); ev_assume(l <= 2); if(l == 2) return;
      std::size_t nx = p.m_slots[i].next_data_ind, pv = p.m_slots[i].prev_data_ind, r = rank(i);
      ev_assume(r < len[l]);
      if(r == 0) ev_assume(pv == NONE & start(l) == i); else { ev_assume(pv < n); ev_assume(list(pv) == l & rank(pv) == r - 1); }
      if(r == len[l] - 1) ev_assume(nx == NONE & end(l) == i); else { ev_assume(nx < n); ev_assume(list(nx) == l & rank(nx) == r + 1); }
    }
    // slots of one list have different positions
    void distinct(std::size_t i, std::size_t j) { if(i >= n) return; if(j >= n) return; if(i != j) ev_assume(!(list(i) == list(j) & rank(i) == rank(j) & list(i) < 2)); }
  };
  // removal and addition as list operations: positions behind the removed slot move up by one; an added slot comes last / first
  void take(std::size_t l) {
    S s; std::size_t t = ev_nat("t", 0, s.n - 1), w = ev_nat("w", 0, s.n - 1);
    ev_assume(s.list(t) == l); s.wf(t); s.wf(w);
    std::size_t r = s.rank(t), lw = s.list(w), rw = s.rank(w), t0 = t;
    std::size_t nx = s.p.m_slots[t].next_data_ind, pv = s.p.m_slots[t].prev_data_ind; if(nx != NONE) s.wf(nx); if(pv != NONE) s.wf(pv);
    std::size_t wn = s.p.m_slots[w].next_data_ind, wp = s.p.m_slots[w].prev_data_ind;
    s.distinct(w, t); s.distinct(w, nx); s.distinct(w, pv);
    s.p.remove_from_slot_list(t, s.start(l), s.end(l));
    ev_cover("reached");
    ev_check(t == t0, "the argument is not modified");
    std::size_t o = 1 - l; (void)o;
    if(w != t && lw == l) {
      std::size_t nr = rw > r ? rw - 1 : rw, nl = s.len[l] - 1;
      std::size_t n2 = s.p.m_slots[w].next_data_ind, p2 = s.p.m_slots[w].prev_data_ind;
      ev_check((p2 == NONE) == (nr == 0), "only the first slot of a list has no predecessor"); ev_check((n2 == NONE) == (nr == nl - 1), "only the last slot of a list has no successor");
      if(nr == 0) ev_check(s.start(l) == w, "the list starts at its first slot"); if(nr == nl - 1) ev_check(s.end(l) == w, "the list ends at its last slot");
      if(n2 != NONE) { ev_check(n2 < s.n, "links are slots"); ev_check(n2 != t0, "the removed slot is unlinked"); ev_check(s.list(n2) == l & (s.rank(n2) > r ? s.rank(n2) - 1 : s.rank(n2)) == nr + 1, "the successor has the next position"); }
      if(p2 != NONE) { ev_check(p2 < s.n, "links are slots"); ev_check(p2 != t0, "the removed slot is unlinked"); ev_check(s.list(p2) == l & (s.rank(p2) > r ? s.rank(p2) - 1 : s.rank(p2)) == nr - 1, "the predecessor has the previous position"); }
    }
    if(w != t && lw != l) ev_check(s.p.m_slots[w].next_data_ind == wn & s.p.m_slots[w].prev_data_ind == wp, "slots of the other list are not modified");
    if(s.len[l] == 1) ev_check(s.start(l) == NONE & s.end(l) == NONE, "the list without its only slot is empty");
    else { ev_check(s.start(l) < s.n & s.end(l) < s.n, "the ends of a list that is not empty are slots"); ev_check(s.start(l) != t0 & s.end(l) != t0, "the removed slot is unlinked"); }
  }
  void add(std::size_t l, bool back) {
    S s; std::size_t t = ev_nat("t", 0, s.n - 1), w = ev_nat("w", 0, s.n - 1);
    ev_assume(s.list(t) == 2); s.wf(w);
    std::size_t lw = s.list(w), rw = s.rank(w), t0 = t, st = s.start(l), en = s.end(l), len = s.len[l];
    if(st != NONE) { s.distinct(w, st); s.distinct(w, en); }
    std::size_t wn = s.p.m_slots[w].next_data_ind, wp = s.p.m_slots[w].prev_data_ind;
    if(back) s.p.add_to_slot_list_back(t, s.start(l), s.end(l)); else s.p.add_to_slot_list_front(t, s.start(l), s.end(l));
    ev_cover("reached");
    ev_check(t == t0, "the argument is not modified");
    std::size_t n2 = s.p.m_slots[w].next_data_ind, p2 = s.p.m_slots[w].prev_data_ind;
    if(w == t) {
      if(back) ev_check(n2 == NONE & p2 == en, "the added slot is linked behind the last one"); else ev_check(p2 == NONE & n2 == st, "the added slot is linked before the first one");
    } else if(lw == l) {
      if(back) { ev_check(p2 == wp, "predecessors are unchanged"); ev_check(n2 == (rw == len - 1 ? t0 : wn), "the added slot follows the last one"); }
      else { ev_check(n2 == wn, "successors are unchanged"); ev_check(p2 == (rw == 0 ? t0 : wp), "the added slot precedes the first one"); }
    } else ev_check(n2 == wn & p2 == wp, "slots of the other list are not modified");
    if(back) { ev_check(s.end(l) == t0, "the added slot is the last one"); ev_check(s.start(l) == (len == 0 ? t0 : st), "the list starts where it did"); }
    else { ev_check(s.start(l) == t0, "the added slot is the first one"); ev_check(s.end(l) == (len == 0 ? t0 : en), "the list ends where it did"); }
  }
  // what a traversal does: the k-th call of the worker is for the slot at position k (from the back: len - 1 - k), len calls in all.
  // Positions are distinct and the list has the slots of positions 0..len-1: every slot of the list is visited exactly once.
  void walk(std::size_t l, bool front) {
    S s; if(l == 0) ev_nat("l0", 0, 1); else ev_nat("l1", 0, 1); if(front) ev_nat("front", 0, 1); else ev_nat("back", 0, 1);
    std::size_t len = s.len[l], calls = 0;
    auto worker = [&](const std::size_t& slot) {
      ev_check(slot < s.n, "the worker gets slots"); s.wf(slot);
      ev_check(s.list(slot) == l, "the worker only gets slots of the list");
      ev_check(s.rank(slot) == (front ? calls : len - 1 - calls), "the worker gets the slots in their order"); calls++;
    };
    ev_cover("reached");
    if(front) s.p.loop_over_elements_front_to_back(s.start(l), worker); else s.p.loop_over_elements_back_to_front(s.end(l), worker);
    ev_check(calls == len, "every slot of the list is visited once");
  }
  void apply() {
    S s; ev_nat("l1", 0, 1); ev_nat("front", 0, 1);
    std::size_t len = s.len[1], calls = 0;
    ev_cover("reached");
    s.p.apply([&](int& obj) {
      std::size_t slot = &obj - s.p.m_data.data();
      ev_check(slot < s.n, "the worker gets elements of the pool"); s.wf(slot);
      ev_check(s.list(slot) == 1, "the worker only gets elements in use");
      ev_check(s.rank(slot) == calls, "the worker gets the elements in the order of their request"); calls++; });
    ev_check(calls == len, "every element in use is visited once");
  }
  // requesting a slot while there is a free one: an unused slot, which becomes the last one in use; nothing else changes
  void request() {
    S s; ev_assume(s.len[0] > 0); ev_havoc(s.p.m_data.data(), s.n * 4, "data");
    std::size_t w = ev_nat("w", 0, s.n - 1); s.wf(w); s.distinct(w, s.start(0)); if(s.len[1] > 0) { s.distinct(w, s.end(1)); }
    std::size_t lw = s.list(w), rw = s.rank(w), en = s.end(1), st = s.start(1), len = s.len[1], wn = s.p.m_slots[w].next_data_ind, wp = s.p.m_slots[w].prev_data_ind; int dw = s.p.m_data[w];
    std::size_t f1 = s.p.m_slots[s.start(0)].next_data_ind; if(f1 != NONE) { s.wf(f1); s.distinct(w, f1); }
    std::size_t t = s.p.get_empty_slot_front();
    ev_cover("reached");
    ev_check(t < s.n, "the slot handed out exists"); ev_check(s.list(t) == 0, "a slot handed out is not in use");
    ev_check(s.p.m_data.size() == s.n & s.p.m_slots.size() == s.n, "the pool does not grow while there is a free slot"); ev_check(s.p.m_data[w] == dw, "no element is modified");
    std::size_t n2 = s.p.m_slots[w].next_data_ind, p2 = s.p.m_slots[w].prev_data_ind;
    ev_check(s.end(1) == t, "the slot handed out is the last one in use"); ev_check(s.start(1) == (len == 0 ? t : st), "the first slot in use is unchanged");
    if(w == t) ev_check(n2 == NONE & p2 == en, "the slot handed out is linked behind those in use");
    else if(lw == 1) { ev_check(p2 == wp, "the order of the slots in use is unchanged"); ev_check(n2 == (rw == len - 1 ? t : wn), "the slot handed out follows the last one in use"); }
    else if(lw == 0) { ev_check(n2 == wn, "the order of the free slots is unchanged"); ev_check(p2 == (rw == 1 ? NONE : wp), "the first free slot is gone"); if(rw == 1) ev_check(s.start(0) == w, "the free slots start with the next one"); }
    else ev_check(n2 == wn & p2 == wp, "nothing else is modified");
    if(s.len[0] == 1) ev_check(s.start(0) == NONE & s.end(0) == NONE, "no free slot is left");
  }
  // giving a slot back
  void give_back() {
    S s; std::size_t t = ev_nat("t", 0, s.n - 1), w = ev_nat("w", 0, s.n - 1); ev_havoc(s.p.m_data.data(), s.n * 4, "data");
    ev_assume(s.list(t) == 1); s.wf(t); s.wf(w);
    std::size_t r = s.rank(t), lw = s.list(w), rw = s.rank(w), len = s.len[1];
    std::size_t nx = s.p.m_slots[t].next_data_ind, pv = s.p.m_slots[t].prev_data_ind; if(nx != NONE) { s.wf(nx); s.distinct(w, nx); } if(pv != NONE) { s.wf(pv); s.distinct(w, pv); }
    std::size_t wn = s.p.m_slots[w].next_data_ind, wp = s.p.m_slots[w].prev_data_ind; int dw = s.p.m_data[w];
    s.distinct(w, t); if(s.len[0] > 0) s.distinct(w, s.end(0));
    s.p.free_slot(t);
    ev_cover("reached");
    ev_check(s.p.m_data[w] == dw, "no element is modified");
    if(w != t && lw == 1) {
      std::size_t n2 = s.p.m_slots[w].next_data_ind, p2 = s.p.m_slots[w].prev_data_ind;
      ev_check(n2 == (rw + 1 == r ? nx : wn), "the slots in use keep their order without the one given back"); ev_check(p2 == (rw == r + 1 ? pv : wp), "the slots in use keep their order without the one given back");
      if(r == 0 & rw == 1) ev_check(s.start(1) == w, "the slots in use start with the next one"); if(r == len - 1 & rw + 1 == r) ev_check(s.end(1) == w, "the slots in use end with the previous one");
    }
    if(len == 1) ev_check(s.start(1) == NONE & s.end(1) == NONE, "no slot is in use"); else ev_check(s.start(1) != t & s.end(1) != t, "the slot given back is not in use");
    if(r != 0 & len > 1) ev_check(s.list(s.start(1)) == 1 & s.rank(s.start(1)) == 0, "the slots in use start where they did");
  }
  // growing and resetting: every new slot goes to the free list exactly once (linking a slot at the back of a list is taken by its
  // contract, checked above), the slots and elements that were there stay as they are
  struct Added { P* p; std::size_t from, calls; }* added;
  void add_contract(P* p, std::size_t& t, std::size_t& start, std::size_t& end) {
    ev_check(p == added->p, "the slots go to this pool");
    ev_check(&start == &p->m_free_start, "new slots go to the free list"); ev_check(&end == &p->m_free_end, "new slots go to the free list");
    ev_check(t < p->m_slots.size(), "callee precondition: the slot exists"); ev_check(t == added->from + added->calls, "the new slots are added one after the other");
    added->calls++;
  }
  // std::vector moves and copies its elements with these (trusted: they do what the C++ standard says)
  P::Slot* copy_contract(P::Slot* first, P::Slot* last, P::Slot* out) { std::size_t k = last - first; ev_copy(out, first, k * sizeof(P::Slot)); return out + k; }
  P::Slot* init_contract(P::Slot* first, std::size_t k) { ev_havoc(first, k * sizeof(P::Slot), "new slots"); return first + k; }
  void grow() {
    ev_replace("std::__do_uninit_copy<", (void*)&copy_contract);
    S s; ev_havoc(s.p.m_data.data(), s.n * 4, "data"); std::size_t w = ev_nat("w", 0, s.n - 1);
    std::size_t wn = s.p.m_slots[w].next_data_ind, wp = s.p.m_slots[w].prev_data_ind; int dw = s.p.m_data[w];
    Added a{&s.p, s.n, 0}; added = &a; ev_replace("::add_to_slot_list_back", (void*)&add_contract);
    std::size_t as = s.start(1), ae = s.end(1);
    s.p.grow();
    ev_cover("reached");
    std::size_t m = s.p.m_data.size();
    ev_check(m > s.n, "the pool has more slots than before"); ev_check(s.p.m_slots.size() == m, "there is a slot for every element");
    ev_check(a.calls == m - s.n, "every new slot is added to the free list once");
    ev_check(s.p.m_slots[w].next_data_ind == wn & s.p.m_slots[w].prev_data_ind == wp, "the slots that were there are not modified"); ev_check(s.p.m_data[w] == dw, "no element is modified");
    ev_check(s.start(1) == as & s.end(1) == ae, "the slots in use are the same");
  }
  void reset(std::size_t lo, std::size_t hi) {
    S s; s.p.m_init_size = lo == hi ? lo : ev_nat("init", lo, hi);
    Added a{&s.p, 0, 0}; added = &a; ev_replace("::add_to_slot_list_back", (void*)&add_contract);
    ev_replace("std::__uninitialized_default_n_1<false>", (void*)&init_contract);
    s.p.reset();
    ev_cover("reached");
    std::size_t m = s.p.m_data.size();
    ev_check(m == s.p.m_init_size & s.p.m_slots.size() == m, "the pool has its initial size");
    ev_check(a.calls == m, "every slot is added to the free list once"); ev_check(s.start(1) == NONE & s.end(1) == NONE, "no slot is in use");
    ev_check(s.start(0) == NONE & s.end(0) == NONE, "the slots are added to an empty list");
  }
  // element access and its inverse
  void access() {
    S s; std::size_t t = ev_nat("t", 0, s.n - 1); const P& cp = s.p;
    ev_cover("reached");
    ev_check(&s.p[t] == s.p.m_data.data() + t, "element access yields the element of the slot"); ev_check(&cp[t] == s.p.m_data.data() + t, "element access yields the element of the slot");
    ev_check(s.p.get_slot(s.p[t]) == t, "get_slot is the inverse of element access");
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(remove_free, take(0)) C(remove_alloc, take(1)) C(add_back_free, add(0, true)) C(add_back_alloc, add(1, true)) C(add_front_free, add(0, false))
C(walk_front_free, walk(0, true)) C(walk_front_alloc, walk(1, true)) C(walk_back_free, walk(0, false)) C(walk_back_alloc, walk(1, false)) C(apply, apply()) C(request, request()) C(give_back, give_back()) C(grow, grow()) C(access, access()) C(reset, reset(0, LIM))
#endif
