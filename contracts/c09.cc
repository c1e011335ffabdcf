#include "ev.hh"
#include <unordered_map>
#include <list>
#include "Cache.hh"
// The LRU cache against an abstract model: a list of (key, payload) from least to most recently inserted or accessed.
#ifndef EV_VERIFY
namespace {
  struct Payload { long v = -1; std::string s; Payload() { } Payload(long init) : v(init) { } bool operator==(const Payload& o) const { return v == o.v && s == o.s; } };
  struct Key { std::size_t k; };
  template <class K> K key(std::size_t i) { if constexpr(std::is_same_v<K, std::string>) return "key" + std::to_string(i); else return (K)(i * 1000003); }
  template <class K> void history(std::size_t depth_lo, std::size_t depth_hi, std::size_t nkeys, std::size_t steps) {
    std::size_t depth = ev_nat("depth", depth_lo, depth_hi), n = steps > 20 ? 20 * ev_nat("steps", 0, steps / 20) : ev_nat("steps", 0, steps);
    Cache<K, Payload> c(depth, 5L);
    std::list<std::pair<K, Payload>> m; long stamp = 0;
    auto find = [&](const K& k) { return std::find_if(m.begin(), m.end(), [&](auto& e) { return e.first == k; }); };
    auto observe = [&] {
      ev_check(c.has_free_slot() == (m.size() < depth), "a free slot is reported exactly when there is one");
      for(std::size_t i = 0; i < nkeys; i++) ev_check(c.contains(key<K>(i)) == (find(key<K>(i)) != m.end()), "contained until evicted");
      auto l = c.contained_elements(); ev_check(l.size() == m.size(), "the listing has every cached key once");
      for(auto& k : l) ev_check(find(k) != m.end(), "the listing has cached keys only");
      std::sort(l.begin(), l.end()); ev_check(std::adjacent_find(l.begin(), l.end()) == l.end(), "the listing has every cached key once");
      auto it = m.begin(); c.loop_over_elements_old_to_new([&](Payload& p) { ev_check(it != m.end() && p == it->second, "old to new: recency order"); ++it; }); ev_check(it == m.end(), "old to new: every entry");
      auto rt = m.rbegin(); c.loop_over_elements_new_to_old([&](Payload& p) { ev_check(rt != m.rend() && p == rt->second, "new to old: reverse recency order"); ++rt; }); ev_check(rt == m.rend(), "new to old: every entry");
    };
    observe(); ev_cover("reached");
    for(std::size_t i = 0; i < n; i++) {
      std::size_t op = ev_nat("op", 0, 5); K k = key<K>(ev_nat("key", 0, nkeys - 1)); auto it = find(k);
      if(op <= 1 && it == m.end()) {
        if(m.size() == depth) {      // the client makes room
          Payload& p = c.evict_oldest_from_full_cache(); ev_check(p == m.front().second, "the least recently inserted or accessed entry is evicted");
          m.pop_front(); ev_cover("evicted oldest"); if(op == 0) observe();
        }
        Payload p; p.v = stamp++; p.s = std::string(20, (char)('a' + stamp % 26));
        if(op == 0) c.insert_no_overwrite(k, p); else { Payload& r = c.insert_ref_no_overwrite(k); r = p; }
        m.push_back({k, p}); ev_cover("inserted");
      } else if(op == 2 && it != m.end()) {
        Payload& p = c.get(k); ev_check(p == it->second, "the payload last stored"); m.splice(m.end(), m, it); ev_cover("accessed");
      } else if(op == 3 && it != m.end()) {
        Payload& p = c.get(k); p.v = stamp++; p.s += "x"; it->second = p; m.splice(m.end(), m, it); ev_cover("changed in place");
      } else if(op == 4 && it != m.end()) {
        Payload& p = c.evict(k); ev_check(p == it->second, "the evicted payload"); m.erase(it); ev_cover("evicted");
      } else if(op == 5 && m.size() == depth) {
        Payload& p = c.evict_oldest_from_full_cache(); ev_check(p == m.front().second, "the least recently inserted or accessed entry is evicted"); m.pop_front();
      } else if(op == 5 && it == m.end()) {
        bool thrown = false; try { c.get(k); } catch(std::out_of_range&) { thrown = true; } ev_check(thrown, "looking up a key that is not cached is refused");
      }
      observe();
    }
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(depth_1, history<std::size_t>(1, 1, 2, 8)) C(depth_2, history<std::size_t>(2, 2, 3, 10)) C(depth_3, history<std::size_t>(3, 3, 4, 12)) C(depth_4, history<std::size_t>(4, 4, 6, 16)) C(deep, history<std::size_t>(1, 9, 12, 60)) C(strings, history<std::string>(1, 5, 7, 20))
#endif
