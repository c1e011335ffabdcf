#include "ev.hh"
#include "Common.hh"
#include "Vector.hh"
#include "RStarTree.hh"
// The slot pool against an abstract model: the set of slots in use in the order of their request, with their contents.
#ifndef EV_VERIFY
namespace {
  struct Item { long v = 0; std::vector<int> heap; bool operator==(const Item& o) const { return v == o.v && heap == o.heap; } };
  void history(std::size_t init_lo, std::size_t init_hi, std::size_t steps) {
    std::size_t init = ev_nat("init", init_lo, init_hi), n = steps > 20 ? 20 * ev_nat("steps", 0, steps / 20) : ev_nat("steps", 0, steps);
    MemoryPool<Item> p(init); const MemoryPool<Item>& cp = p;
    std::vector<std::pair<std::size_t, Item>> m; long stamp = 0;
    auto observe = [&] {
      for(auto& [s, it] : m) { ev_check(p[s] == it, "the contents of a slot in use are undisturbed"); ev_check(cp[s] == it, "the contents of a slot in use are undisturbed"); ev_check(p.get_slot(p[s]) == s, "get_slot is the inverse of element access"); }
      std::vector<long> seen, want; p.apply([&](Item& i) { seen.push_back(i.v); i.heap.push_back(7); });
      for(auto& [s, it] : m) { want.push_back(it.v); it.heap.push_back(7); }
      std::sort(seen.begin(), seen.end()); std::sort(want.begin(), want.end());
      ev_check(seen == want, "the iteration visits every slot in use once and no other");
      std::vector<Item> e; p.fill_elements(e); ev_check(e.size() == m.size(), "the listing has every slot in use once");
      seen.clear(); for(auto& i : e) seen.push_back(i.v); std::sort(seen.begin(), seen.end()); ev_check(seen == want, "the listing has every slot in use once and no other");
      for(auto& [s, it] : m) ev_check(p[s] == it, "the worker is applied to every slot in use once");
    };
    observe(); ev_cover("reached");
    for(std::size_t i = 0; i < n; i++) {
      std::size_t op = ev_nat("op", 0, 6);
      if(op <= 2) {
        std::size_t s = p.get_empty_slot_front();
        for(auto& [t, it] : m) ev_check(t != s, "a newly handed-out slot is not in use");
        Item it; it.v = ++stamp; it.heap.assign(1 + stamp % 3, (int)stamp); p[s] = it; m.push_back({s, it}); ev_cover("requested");
      } else if(op <= 4 && m.size()) {
        std::size_t k = ev_nat("which", 0, m.size() - 1); p.free_slot(m[k].first); m.erase(m.begin() + k); ev_cover("freed");
      } else if(op == 5 && m.size() && ev_nat("resetnow", 0, 4) == 4) { p.reset(); m.clear(); ev_cover("reset"); }
      else if(op == 6) { p.grow(); ev_cover("grown"); if(m.size() + i > 200) return; }
      observe();
    }
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(init_0, history(0, 0, 8)) C(init_1, history(1, 1, 10)) C(init_2, history(2, 2, 12)) C(init_3, history(3, 3, 14)) C(any, history(0, 9, 20)) C(long, history(1, 5, 60))
#endif
