#include "ev.hh"
#include "NDVecArray.hh"
// Element addressing of NDVecArray.  Extents are arbitrary up to LIM (chosen so that the byte size of the array is representable).
namespace {
#ifdef EV_VERIFY
  template <std::size_t D> constexpr std::size_t LIM = D == 1 ? 1ull << 40 : D == 2 ? 1ull << 28 : D == 3 ? 1ull << 18 : 1ull << 14;
#else
  template <std::size_t D> constexpr std::size_t LIM = 7;
#endif
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  template <std::size_t D> Ind<D> shape(const char* n, std::size_t lo = 1) { Ind<D> s; for(std::size_t k = 0; k < D; k++) s[k] = ev_nat(n, lo, LIM<D>); return s; }
  template <std::size_t D> Ind<D> below(const char* n, const Ind<D>& s) { Ind<D> i; for(std::size_t k = 0; k < D; k++) i[k] = ev_nat(n, 0, s[k] - 1); return i; }
  // row-major position (last index fastest)
  template <std::size_t D> std::size_t flat(const Ind<D>& s, const Ind<D>& i) { std::size_t f = 0; for(std::size_t k = 0; k < D; k++) f = f * s[k] + i[k]; return f; }

  // the position of an in-range index is smaller than the number of elements (proved dimension by dimension)
  template <std::size_t D> void in_range(const Ind<D>& s, const Ind<D>& i) {
    std::size_t f = 0, n = 1;
    for(std::size_t k = 0; k < D; k++) { f = f * s[k] + i[k]; n = n * s[k]; ev_check(f + 1 <= n, "the position of an in-range index is below the number of elements"); }
  }

  template <std::size_t D, std::size_t V> void index() {
    auto s = shape<D>("shape"); auto i = below<D>("i", s); std::size_t c = ev_nat("c", 0, V - 1);
    NDVecArray<float, D, V> a(s);
    const NDVecArray<float, D, V>& ca = a;
    ev_havoc(&*a.data(), a.GetVolume() * sizeof(float), "a");
    ev_cover("reached");
    std::size_t n = 1; for(std::size_t k = 0; k < D; k++) n *= s[k];
    ev_check(a.GetNumberElements() == n && a.GetVolume() == n * V && a.GetShape() == s, "number of elements and volume match the shape");
    ev_check(a.has_index(i) && a.index_within_bounds(i), "an in-range index is recognised");
    in_range<D>(s, i);
    float* base = &*a.data();
    auto e = a[i]; auto ce = ca[i];
    ev_check(e.size() == V, "an element has vec_dims components");
    ev_check(ev_same_object(&e[c], base), "the element lies in the array's own storage");
    ev_check((const char*)&e[c] - (const char*)base == (std::ptrdiff_t)((flat<D>(s, i) * V + c) * sizeof(float)), "the element sits at its row-major position");
    ev_check(&ce[c] == &e[c], "const access designates the same element");
    float v = e[c];                          // reading and writing stay in bounds
    ev_check(ev::bits(v) == ev::bits(base[flat<D>(s, i) * V + c]), "reading the element yields the stored value");
    e[c] = 1.5f;
    ev_check(ev::bits((float)ca[i][c]) == ev::bits(1.5f), "a value written is read back");
    if constexpr(D == 1) { std::size_t x = i[0]; ev_check(&a[x][c] == &e[c], "integer access designates the same element"); }
  }
  template <std::size_t D> void has_index() {
    auto s = shape<D>("shape", 0); Ind<D> i; for(std::size_t k = 0; k < D; k++) i[k] = ev_nat("i", 0, 2 * LIM<D>);
    bool want = true; for(std::size_t k = 0; k < D; k++) want = want & (i[k] < s[k]);
    bool got = NDVecArray<float, D, 1>::has_index(i, s);
    ev_cover("reached");
    ev_check(got == want, "an index is in range exactly when each component is below the extent");
  }
  // distinct in-range indices: disjoint elements; writing one leaves the other alone
  template <std::size_t D, std::size_t V> void injective() {
    auto s = shape<D>("shape"); auto i = below<D>("i", s); auto j = below<D>("j", s);
    std::size_t p = ev_nat("p", 0, D - 1);       // i < j, first difference at dimension p (the other order is symmetric)
    for(std::size_t k = 0; k < D; k++) { if(k < p) ev_assume(i[k] == j[k]); if(k == p) ev_assume(i[k] < j[k]); }
    std::size_t c = ev_nat("c", 0, V - 1), d = ev_nat("d", 0, V - 1);
    NDVecArray<float, D, V> a(s);
    ev_havoc(&*a.data(), a.GetVolume() * sizeof(float), "a");
    ev_cover("reached");
    // lemma, dimension by dimension: the positions stay strictly ordered from dimension p on
    std::size_t f = 0, g = 0;
    for(std::size_t k = 0; k < D; k++) {
      f = f * s[k] + i[k]; g = g * s[k] + j[k];
      if(k >= p) ev_check(f + 1 <= g, "positions of distinct indices are ordered like the indices");
    }
    ev_check(flat<D>(s, i) * V + V <= flat<D>(s, j) * V, "elements of distinct indices do not overlap");
    in_range<D>(s, i); in_range<D>(s, j);
    float* pi = &a[i][c]; float* pj = &a[j][d];
    ev_check(pj - pi == (std::ptrdiff_t)((flat<D>(s, j) * V + d) - (flat<D>(s, i) * V + c)), "row-major distance");
    ev_check(pi < pj, "distinct indices designate disjoint elements");
    float vj = *pj, vi = *pi;
    a[i][c] = 1.5f;
    ev_check(ev::bits(*pj) == ev::bits(vj), "writing one element leaves the others unchanged");
    a[j][d] = 2.5f;
    ev_check(ev::bits(*pi) == ev::bits(1.5f), "writing one element leaves the others unchanged");
  }
  // views, and views of views
  template <std::size_t D, std::size_t V> void view() {
    auto s = shape<D>("shape"); Ind<D> b, e, i;
    for(std::size_t k = 0; k < D; k++) { b[k] = ev_nat("begin", 0, s[k] - 1); e[k] = ev_nat("end", b[k] + 1, s[k]); i[k] = ev_nat("i", 0, e[k] - b[k] - 1); }
    std::size_t c = ev_nat("c", 0, V - 1);
    NDVecArray<float, D, V> a(s);
    ev_havoc(&*a.data(), a.GetVolume() * sizeof(float), "a");
    Ind<D> w = b + i;
    in_range<D>(s, w);
    auto v = a.View(b, e);
    const auto& cv = v;
    ev_cover("reached");
    ev_check(!v.owns_data() && a.owns_data(), "a view does not own its data");
    ev_check(v.GetShape() == e - b, "the view has the extent of its range");
    ev_check(&v[i][c] == &a[w][c], "element i of a view is element start+i of the parent");
    ev_check(&cv[i][c] == &a[w][c], "element i of a const view is element start+i of the parent");
    if constexpr(D == 1) { std::size_t x = i[0]; ev_check(&v[x][c] == &a[w][c], "integer access to a view designates element start+i of the parent"); }
    float old = a[w][c];
    ev_check(ev::bits((float)v[i][c]) == ev::bits(old), "a view reads what the parent holds");
    v[i][c] = 1.5f;
    ev_check(ev::bits((float)a[w][c]) == ev::bits(1.5f), "a write through the view is seen by the parent");
    a[w][c] = 2.5f;
    ev_check(ev::bits((float)v[i][c]) == ev::bits(2.5f), "a write through the parent is seen by the view");
  }
  template <std::size_t D, std::size_t V> void viewview() {
    auto s = shape<D>("shape"); Ind<D> b, e, b2, e2, i;
    for(std::size_t k = 0; k < D; k++) { b[k] = ev_nat("begin", 0, s[k] - 1); e[k] = ev_nat("end", b[k] + 1, s[k]);
      b2[k] = ev_nat("begin2", 0, e[k] - b[k] - 1); e2[k] = ev_nat("end2", b2[k] + 1, e[k] - b[k]); i[k] = ev_nat("i", 0, e2[k] - b2[k] - 1); }
    std::size_t c = ev_nat("c", 0, V - 1);
    NDVecArray<float, D, V> a(s);
    Ind<D> w = b + b2 + i;
    in_range<D>(s, w);
    auto v = a.View(b, e); auto vv = v.View(b2, e2);
    ev_cover("reached");
    ev_check(vv.GetShape() == e2 - b2, "the view of a view has the extent of its range");
    ev_check(&vv[i][c] == &a[w][c], "an element of a view of a view is the parent's element");
  }
  // resize: same addressing as a new array
  template <std::size_t D, std::size_t V> void resize() {
    auto s0 = shape<D>("old", 0), s = shape<D>("shape"); auto i = below<D>("i", s); std::size_t c = ev_nat("c", 0, V - 1);
    NDVecArray<float, D, V> a(s0); a.resize(s);
    ev_cover("reached");
    in_range<D>(s, i);
    std::size_t n = 1; for(std::size_t k = 0; k < D; k++) n *= s[k];
    ev_check(a.GetNumberElements() == n && a.GetVolume() == n * V && a.GetShape() == s && a.owns_data(), "number of elements and volume match the new shape");
    ev_check((const char*)&a[i][c] - (const char*)&*a.data() == (std::ptrdiff_t)((flat<D>(s, i) * V + c) * sizeof(float)), "after resizing the element sits at its row-major position");
    a[i][c] = 1.5f;
  }
}
#define ALL(D, V) \
  extern "C" void ev_contract_index_##D##_##V() { index<D, V>(); } \
  extern "C" void ev_contract_injective_##D##_##V() { injective<D, V>(); } \
  extern "C" void ev_contract_view_##D##_##V() { view<D, V>(); } \
  extern "C" void ev_contract_viewview_##D##_##V() { viewview<D, V>(); } \
  extern "C" void ev_contract_resize_##D##_##V() { resize<D, V>(); }
ALL(1, 1) ALL(1, 3) ALL(2, 1) ALL(2, 2) ALL(3, 1) ALL(3, 2) ALL(3, 3) ALL(4, 1) ALL(4, 2)
extern "C" void ev_contract_has_index_1() { has_index<1>(); }
extern "C" void ev_contract_has_index_2() { has_index<2>(); }
extern "C" void ev_contract_has_index_3() { has_index<3>(); }
extern "C" void ev_contract_has_index_4() { has_index<4>(); }
