#include "ev.hh"
#include <unordered_map>
#include <list>
// The recency list and the index mapping of the cache, for caches of any depth (deductive only).
// Footprint contracts: the entry an operation works on, its neighbours and the two ends of the list are given as separate nodes in
// every configuration (the same node can play several of these roles); links to the rest of the list lead to opaque nodes, which
// have no links of their own to follow and stay as they are.  The rest of a list of any length is the frame.
#ifdef EV_VERIFY
namespace std {
  // contract of the hash map: what is known about the keys of the contract; any other key is outside the footprint
  template <class K, class V> struct ev_map {
    using value_type = pair<K, V>; using iterator = value_type*;
    value_type kv[2]; bool in[2]; size_t known, count_;
    int find_(const K& k) const { for(size_t i = 0; i < known; i++) if(kv[i].first == k) return (int)i; ev_check(false, "only the keys at hand are looked up"); return 0; }
    size_t size() const { return count_; }
    bool empty() const { return count_ == 0; }
    bool contains(const K& k) const { return in[find_(k)]; }
    size_t count(const K& k) const { return in[find_(k)] ? 1 : 0; }
    V& at(const K& k) { int i = find_(k); ev_check(in[i], "the key is in the mapping"); return kv[i].second; }
    V& operator[](const K& k) { int i = find_(k); if(!in[i]) { in[i] = true; count_++; } return kv[i].second; }
    size_t erase(const K& k) { int i = find_(k); if(!in[i]) return 0; in[i] = false; count_--; return 1; }
    iterator end() { return kv + 2; } iterator begin() { return kv; }
    iterator find(const K& k) { int i = find_(k); return in[i] ? kv + i : end(); }
    void erase(iterator it) { erase(it->first); }
    pair<iterator, bool> emplace(const K& k, const V& v) { int i = find_(k); if(in[i]) return {kv + i, false}; (*this)[k] = v; return {kv + i, true}; }
    pair<iterator, bool> insert(const value_type& x) { return emplace(x.first, x.second); }
    pair<iterator, bool> insert_or_assign(const K& k, const V& v) { bool n = !in[find_(k)]; (*this)[k] = v; return {kv + find_(k), n}; }
  };
}
#define unordered_map ev_map
#define private public
#include "Cache.hh"
#undef private
#undef unordered_map
namespace {
  struct Payload { std::uint64_t v; Payload() : v(ev_any()) { } Payload& operator=(const Payload&) = default; };
  using CacheT = Cache<std::size_t, Payload>; using Node = CacheT::CacheElement;
  struct Snap { std::uint64_t v; std::size_t index; bool occupied; Node* next; Node* prev; };
  constexpr int E = 0, PR = 1, NX = 2, OLD = 3, NEW = 4, X = 5, COUNT = 9;
  struct L {
    Node* node[COUNT]; Snap want[COUNT]; Node* oldest; Node* newest; alignas(CacheT) char mem[sizeof(CacheT)]; CacheT& c; bool uses[COUNT] = {};
    using Map = std::ev_map<std::size_t, Node*>;
    std::size_t key, other; bool key_in, other_in; Node* key_at; std::size_t count, depth;
    Node* use(int i) { uses[i] = true; return node[i]; }
    // has_prev/has_next: does the entry have an older/newer neighbour; prev_end/next_end: is that one the end of the list
    L(bool has_prev, bool has_next, bool prev_end, bool next_end) : c(*(CacheT*)mem) {
      for(int i = 0; i < COUNT; i++) { node[i] = new Node(); node[i]->index = ev_any(); node[i]->occupied = ev_any_bool(); node[i]->next = nullptr; node[i]->prev = nullptr; }
      Node* e = use(E); oldest = newest = e;
      if(has_prev) { Node* p = use(PR); link(p, e); if(prev_end) oldest = p; else { link(use(X), p); oldest = use(OLD); link(oldest, use(X + 1)); } }
      if(has_next) { Node* n = use(NX); link(e, n); if(next_end) newest = n; else { link(n, use(X + 2)); newest = use(NEW); link(use(X + 3), newest); } }
      depth = ev_nat("depth", 1, EV_BIG); c.m_depth = depth; c.m_oldest = oldest; c.m_newest = newest;
      key = ev_nat("key", 0, EV_BIG); other = ev_nat("other", 0, EV_BIG); ev_assume(key != other);
      for(int i = 0; i < COUNT; i++) want[i] = Snap{node[i]->payload.v, node[i]->index, node[i]->occupied, node[i]->next, node[i]->prev};
      other_in = ev_any_bool(); key_in = false; key_at = nullptr; count = ev_nat("count", 0, depth);
    }
    void link(Node* a, Node* b) { a->next = b; b->prev = a; }
    Snap& w(Node* n) { for(int i = 0; i < COUNT; i++) if(node[i] == n) return want[i]; return want[0]; }
    void wlink(Node* a, Node* b) { if(a) w(a).next = b; if(b) w(b).prev = a; }
    void map(bool in) { key_in = in; key_at = in ? node[E] : nullptr; Map& m = c.m_accessor; m.known = 2; m.kv[0] = {key, key_at}; m.kv[1] = {other, nullptr}; m.in[0] = in; m.in[1] = other_in; m.count_ = count; if(in | other_in) ev_assume(count >= 1); if(in & other_in) ev_assume(count >= 2); }
    void drop(Node* e) { Node* p = w(e).prev; Node* n = w(e).next; if(p) w(p).next = n; else oldest = n; if(n) w(n).prev = p; else newest = p; }
    void to_newest() { Node* e = node[E]; if(!w(e).next) return; drop(e); w(e).prev = newest; w(e).next = nullptr; w(newest).next = e; newest = e; }
    void to_oldest() { Node* e = node[E]; if(!w(e).prev) return; drop(e); w(e).next = oldest; w(e).prev = nullptr; w(oldest).prev = e; oldest = e; }
    void check(bool with_map) {
      for(int i = 0; i < COUNT; i++) {
        if(i != E) { ev_check(node[i]->payload.v == want[i].v, "other payloads are not modified"); ev_check(node[i]->index == want[i].index, "other entries keep their key"); ev_check(node[i]->occupied == want[i].occupied, "other entries are not modified"); }
        ev_check(node[i]->next == want[i].next, "the list from old to new is in recency order"); ev_check(node[i]->prev == want[i].prev, "the list from new to old is in reverse recency order");
      }
      ev_check(c.m_oldest == oldest, "the oldest entry"); ev_check(c.m_newest == newest, "the newest entry"); ev_check(c.m_depth == depth, "the depth does not change");
      if(!with_map) return;
      Map& m = c.m_accessor;
      ev_check(m.in[0] == key_in, "contained until evicted"); if(key_in) ev_check(m.kv[0].second == key_at, "the key leads to its entry");
      ev_check(m.in[1] == other_in & m.kv[1].first == other & m.kv[0].first == key, "other keys are not affected"); ev_check(m.count_ == count, "the number of cached keys");
    }
  };
  template <class F> void configurations(F f) {
    bool hp = ev_bool("has older neighbour"), hn = ev_bool("has newer neighbour"), pe = false, ne = false;
    if(hp) { pe = ev_bool("neighbour is the oldest"); if(pe) f(true, hn, true); else f(true, hn, false); } else f(false, hn, false);
  }
  template <class F> void lists(F f) {
    configurations([&](bool hp, bool hn, bool pe) { if(hn) { if(ev_bool("neighbour is the newest")) { L l(hp, true, pe, true); f(l); } else { L l(hp, true, pe, false); f(l); } } else { L l(hp, false, pe, false); f(l); } });
  }
  void same(L& l) { Node* e = l.node[E]; ev_check(e->payload.v == l.want[E].v & e->index == l.want[E].index & e->occupied == l.want[E].occupied, "the entry itself is not modified"); }
  void newest() { lists([](L& l) { l.map(false); ev_cover("reached"); Node* e = l.node[E]; l.c.mark_as_newest(e); l.to_newest(); same(l); l.check(true); }); }
  void oldest() { lists([](L& l) { l.map(false); ev_cover("reached"); Node* e = l.node[E]; l.c.mark_as_oldest(e); l.to_oldest(); same(l); l.check(true); }); }
  void get() { lists([](L& l) {
    l.map(true); l.node[E]->index = l.want[E].index = l.key; l.node[E]->occupied = l.want[E].occupied = true; ev_cover("reached");
    Payload& r = l.c.get(l.key); l.to_newest();
    ev_check(&r == &l.node[E]->payload, "looking up a key yields the payload stored for it"); same(l); l.check(true); }); }
  void contains() { lists([](L& l) {
    l.map(ev_bool("in")); ev_cover("reached");
    ev_check(l.c.contains(l.key) == l.key_in, "contains reports the cached keys"); ev_check(l.c.has_free_slot() == (l.count < l.depth), "a free slot is reported exactly when there is one"); same(l); l.check(true); }); }
  // inserting: into the oldest entry, which is free when there is a free slot (free entries are older than cached ones)
  void insert(bool ref) { lists([=](L& l) {
    l.map(false); if(l.oldest != l.node[E]) return; ev_assume(l.count < l.depth); l.node[E]->occupied = false; ev_cover("reached");
    std::uint64_t v = ev_any(), old = l.node[E]->payload.v; Payload p; p.v = v;
    if(ref) { Payload& r = l.c.insert_ref_no_overwrite(l.key); ev_check(&r == &l.node[E]->payload, "the reference leads to the payload of the new entry"); }
    else l.c.insert_no_overwrite(l.key, p);
    l.to_newest(); l.key_in = true; l.key_at = l.node[E]; l.count++; Node* e = l.node[E];
    ev_check(e->occupied, "the new entry is cached"); ev_check(e->index == l.key, "the new entry has the key"); ev_check(e->payload.v == (ref ? old : v), "the new entry has the payload");
    l.check(true); }); }
  void evict() { lists([](L& l) {
    l.map(true); Node* e = l.node[E]; e->index = l.key; e->occupied = true; std::uint64_t v = e->payload.v; ev_cover("reached");
    Payload& r = l.c.evict(l.key); l.to_oldest(); l.key_in = false; l.count--;
    ev_check(&r == &e->payload, "the evicted payload is handed out"); ev_check(e->payload.v == v, "the evicted payload is not modified"); ev_check(!e->occupied, "the entry is free");
    l.check(true); }); }
  void evict_oldest() { lists([](L& l) {
    if(l.oldest != l.node[E]) return; l.count = l.depth; l.map(true); Node* e = l.node[E]; e->index = l.key; e->occupied = true; std::uint64_t v = e->payload.v; ev_cover("reached");
    Payload& r = l.c.evict_oldest_from_full_cache(); l.key_in = false; l.count--;
    ev_check(&r == &e->payload, "the least recently inserted or accessed entry is evicted"); ev_check(e->payload.v == v, "the evicted payload is not modified"); ev_check(!e->occupied, "the entry is free");
    l.check(true); }); }
  // bounded: traversals of lists of 1 to 4 entries, cached or free in any combination
  void walk(bool old_to_new) {
    L l(false, false, false, false); std::size_t n = ev_nat("entries", 1, 4); Node* k[4] = {l.node[0], l.node[1], l.node[2], l.node[3]};
    for(std::size_t i = 0; i < 4; i++) { k[i]->next = nullptr; k[i]->prev = nullptr; }
    if(n >= 2) l.link(k[0], k[1]); if(n >= 3) l.link(k[1], k[2]); if(n >= 4) l.link(k[2], k[3]);
    l.c.m_oldest = k[0]; l.c.m_newest = n == 1 ? k[0] : n == 2 ? k[1] : n == 3 ? k[2] : k[3];
    Payload* seen[4]; std::size_t calls = 0; auto worker = [&](Payload& p) { ev_check(calls < 4, "every cached entry is visited once"); seen[calls++] = &p; };
    ev_cover("reached");
    if(old_to_new) l.c.loop_over_elements_old_to_new(worker); else l.c.loop_over_elements_new_to_old(worker);
    std::size_t j = 0;
    for(std::size_t i = 0; i < 4; i++) { std::size_t q = old_to_new ? i : 3 - i; if(q < n) if(k[q]->occupied) { ev_check(j < calls, "every cached entry is visited"); ev_check(seen[j] == &k[q]->payload, "the entries are visited in recency order"); j++; } }
    ev_check(j == calls, "free entries are not visited");
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(newest, newest()) C(oldest, oldest()) C(get, get()) C(contains, contains()) C(insert, insert(false)) C(insert_ref, insert(true)) C(evict, evict()) C(evict_oldest, evict_oldest()) C(old_to_new, walk(true)) C(new_to_old, walk(false))
#endif
