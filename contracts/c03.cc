#include "loops_contract.hh"
#include "NDVecArray.hh"
// Bulk operations of NDVecArray (arrays and views): at every index exactly the element the definition prescribes, every element
// outside the target region unchanged.  W is an arbitrary index (natively: all indices).  Chunk loops are taken by their contract.
namespace {
#ifdef EV_VERIFY
  template <std::size_t D> constexpr std::size_t LIM = D == 1 ? 1ull << 40 : D == 2 ? 1ull << 28 : D == 3 ? 1ull << 18 : 1ull << 14;
#else
  template <std::size_t D> constexpr std::size_t LIM = D == 1 ? 9 : D == 2 ? 6 : 5;
#endif
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  template <std::size_t D> Ind<D> shape(const char* n, std::size_t lo = 1) { Ind<D> s; for(std::size_t k = 0; k < D; k++) s[k] = ev_nat(n, lo, LIM<D>); return s; }
  template <std::size_t D> Ind<D> below(const char* n, const Ind<D>& s) { Ind<D> i; for(std::size_t k = 0; k < D; k++) i[k] = ev_nat(n, 0, s[k] - 1); return i; }
  template <std::size_t D> void range_in(const char* nb, const char* ne, const Ind<D>& s, Ind<D>& b, Ind<D>& e) { for(std::size_t k = 0; k < D; k++) { b[k] = ev_nat(nb, 0, s[k] - 1); e[k] = ev_nat(ne, b[k] + 1, s[k]); } }
  template <std::size_t D> void in_range(const Ind<D>& s, const Ind<D>& i) {   // lemma: the position of an index of the array is inside its storage
    std::size_t f = 0, n = 1;
    for(std::size_t k = 0; k < D; k++) { f = f * s[k] + i[k]; n = n * s[k]; ev_check(f + 1 <= n, "lemma: the position of an in-range index is below the number of elements"); }
  }
  // Lemmas about the rows (boxes [cb, ce) of extent 1,..,1,len) the chunk loop hands out.  Index x of the loop range sits at
  // to + (x - from) in the target (shape s, watched element w) and at to2 + (x - from) in the source (shape s2).
  template <std::size_t D> struct Row {
    static inline Ind<D> s, w, from, to, s2, to2; static inline bool two = false;
    static void inside(const Ind<D>& s, const Ind<D>& r, std::size_t len) {
      std::size_t f = 0, n = 1;
      for(std::size_t k = 0; k + 1 < D; k++) { f = f * s[k] + r[k]; n = n * s[k]; ev_check(f + 1 <= n, "lemma: row number is below the number of rows"); }
      f = f * s[D - 1] + r[D - 1] + len; n = n * s[D - 1];
      ev_check(f <= n, "lemma: the row lies inside the array");
    }
    static void away(const Ind<D>& r, std::size_t len) {
      std::size_t F = 0, G = 0;
      for(std::size_t p = 0; p + 1 < D; p++) {
        if(r[p] < w[p]) {
          F = F * s[p] + r[p]; G = G * s[p] + w[p]; ev_check(F + 1 <= G, "lemma: rows are ordered");
          for(std::size_t k = p + 1; k + 1 < D; k++) { F = F * s[k] + r[k]; G = G * s[k] + w[k]; ev_check(F + 1 <= G, "lemma: rows are ordered"); }
          F = F * s[D - 1] + r[D - 1] + len; G = G * s[D - 1] + w[D - 1];
          ev_check(F <= G, "lemma: the row ends before the element");
          return;
        }
        if(w[p] < r[p]) {
          F = F * s[p] + r[p]; G = G * s[p] + w[p]; ev_check(G + 1 <= F, "lemma: rows are ordered");
          for(std::size_t k = p + 1; k + 1 < D; k++) { F = F * s[k] + r[k]; G = G * s[k] + w[k]; ev_check(G + 1 <= F, "lemma: rows are ordered"); }
          F = F * s[D - 1] + r[D - 1]; G = G * s[D - 1] + w[D - 1] + 1;
          ev_check(G <= F, "lemma: the row begins after the element");
          return;
        }
        F = F * s[p] + r[p]; G = G * s[p] + w[p];
      }
    }
    static Ind<D> at(const Ind<D>& cb, const Ind<D>& t) { Ind<D> r; for(std::size_t k = 0; k < D; k++) r[k] = t[k] + (cb[k] - from[k]); return r; }
    static void every(const Ind<D>& cb, const Ind<D>& ce) { std::size_t len = ce[D - 1] - cb[D - 1]; inside(s, at(cb, to), len); if(two) inside(s2, at(cb, to2), len); }
    static void hook(const Ind<D>& cb, const Ind<D>& ce) { away(at(cb, to), ce[D - 1] - cb[D - 1]); }
    static void set(const Ind<D>& s_, const Ind<D>& w_, const Ind<D>& from_, const Ind<D>& to_) { s = s_; w = w_; from = from_; to = to_; two = false; evl::Ghost<D>::each = every; evl::Ghost<D>::lemma = hook; }
    static void source(const Ind<D>& s_, const Ind<D>& to_) { s2 = s_; to2 = to_; two = true; }
  };
  // lemma: distinct indices have distinct positions after swapping two axes
  template <std::size_t D> struct Pair {
    static inline Ind<D> s, w, ps, off; static inline std::size_t a1, a2; static inline bool on = false;
    static void hook(const Ind<D>& x) {
      in_range<D>(ps, off + x);
      Ind<D> r = x; r[a1] = x[a2]; r[a2] = x[a1];
      in_range<D>(s, r);
      std::size_t F = 0, G = 0;
      for(std::size_t p = 0; p < D; p++) {
        if(r[p] < w[p]) { for(std::size_t k = p; k < D; k++) { F = F * s[k] + r[k]; G = G * s[k] + w[k]; ev_check(F + 1 <= G, "lemma: positions are ordered"); } return; }
        if(w[p] < r[p]) { for(std::size_t k = p; k < D; k++) { F = F * s[k] + r[k]; G = G * s[k] + w[k]; ev_check(G + 1 <= F, "lemma: positions are ordered"); } return; }
        F = F * s[p] + r[p]; G = G * s[p] + w[p];
      }
    }
  };
  template <class A> auto* raw(A& a) { return &*a.data(); }
  template <std::size_t D> bool in(const Ind<D>& b, const Ind<D>& e, const Ind<D>& x) { for(std::size_t k = 0; k < D; k++) { if(x[k] < b[k]) return false; if(x[k] >= e[k]) return false; } return true; }

  // the element to watch in an array whose storage is (re)allocated by the operation itself
  template <std::size_t D, std::size_t V> struct Target {
    static inline NDVecArray<float, D, V>* a; static inline Ind<D> w; static inline std::size_t c;
    static void hook() { float* p = &(*a)[w][c]; ev_witness(p, 4); }
    static void set(NDVecArray<float, D, V>& a_, const Ind<D>& w_, std::size_t c_) { a = &a_; w = w_; c = c_; evl::Ghost<D>::before = hook; }
  };
  // uninitialised storage for an array to construct in place
  template <std::size_t D, std::size_t V> struct Room { alignas(NDVecArray<float, D, V>) char raw[sizeof(NDVecArray<float, D, V>)]; bool built = false;
    NDVecArray<float, D, V>& at() { return *(NDVecArray<float, D, V>*)raw; } ~Room() { if(built) at().~NDVecArray<float, D, V>(); } };

  // an array with arbitrary contents and a witness element of it
  template <std::size_t D, std::size_t V> struct Watched {
    NDVecArray<float, D, V> a; Ind<D> w; std::size_t c = 0; std::uint32_t old = 0;
#ifndef EV_VERIFY
    std::vector<std::uint32_t> all;
#endif
    Watched(const char* n, const Ind<D>& s) : a(s) { ev_havoc(raw(a), a.GetVolume() * sizeof(float), n); }
    void watch(const Ind<D>& w_, std::size_t c_) {
      w = w_; c = c_;
#ifdef EV_VERIFY
      in_range<D>(a.GetShape(), w);
      float* p = &a[w][c]; ev_witness(p, 4); old = ev::bits(*p);
#else
      all.resize(a.GetVolume()); std::memcpy(all.data(), raw(a), 4 * a.GetVolume());
#endif
    }
    template <class F> void each(F f) {      // f(index, component, bits before the operation)
#ifdef EV_VERIFY
      f(w, c, old);
#else
      std::size_t i = 0;
      if(a.GetNumberElements() == 0) return;
      Ind<D> x(0u); const Ind<D> s = a.GetShape();
      while(true) { for(std::size_t c = 0; c < V; c++) f(x, c, i < all.size() ? all[i] : 0u), i++;
        std::size_t k = D; while(k > 0) { k--; if(++x[k] < s[k]) break; x[k] = 0; if(k == 0) return; } }
#endif
    }
  };

  // ---- fill a region
  template <std::size_t D, std::size_t V> void fill() {
    auto s = shape<D>("shape"); Ind<D> b, e; range_in<D>("begin", "end", s, b, e);
    auto w = below<D>("W", s); std::size_t c = ev_nat("c", 0, V - 1);
    Watched<D, V> A("a", s); A.watch(w, c);
    Row<D>::set(s, w, b, b); evl::Ghost<D>::w = w;
    float val = 1.5f;
    ev_cover("reached");
    A.a.fill(b, e, val);
    A.each([&](const Ind<D>& x, std::size_t c, std::uint32_t old) {
      if(in<D>(b, e, x)) ev_check(ev::bits(A.a[x][c]) == ev::bits(val), "every element of the region has the fill value");
      else ev_check(ev::bits(A.a[x][c]) == old, "elements outside the region are unchanged"); });
    ev_check(A.a.GetShape() == s, "filling keeps the shape");
  }
  // ---- fill a view: the parent outside the view is unchanged
  template <std::size_t D, std::size_t V> void fillview() {
    auto s = shape<D>("shape"); Ind<D> b, e; range_in<D>("begin", "end", s, b, e);
    auto w = below<D>("W", s); std::size_t c = ev_nat("c", 0, V - 1);
    Watched<D, V> A("a", s); A.watch(w, c);
    Ind<D> zero(0u), ext = e - b;
    Row<D>::set(s, w, zero, b);
    // the loop runs over the view's indices
    bool inside = in<D>(b, e, w);
    for(std::size_t k = 0; k < D; k++) evl::Ghost<D>::w[k] = inside ? w[k] - b[k] : std::numeric_limits<std::size_t>::max();
    float val = 1.5f;
    ev_cover("reached");
    auto v = A.a.View(b, e);
    v = val;
    A.each([&](const Ind<D>& x, std::size_t c, std::uint32_t old) {
      if(in<D>(b, e, x)) ev_check(ev::bits(A.a[x][c]) == ev::bits(val), "every element of the view has the fill value");
      else ev_check(ev::bits(A.a[x][c]) == old, "elements outside the view are unchanged"); });
  }
  // ---- copy a region between arrays; the source may be a view (view == true) that starts at `off` in a bigger array
  template <std::size_t D, std::size_t V> void copy(bool view) {
    auto s = shape<D>("shape"); auto ps = shape<D>("source"); Ind<D> off(0u), vs = ps;
    if(view) for(std::size_t k = 0; k < D; k++) { off[k] = ev_nat("off", 0, ps[k] - 1); vs[k] = ev_nat("vshape", 1, ps[k] - off[k]); }
    Ind<D> b, e, o; range_in<D>("begin", "end", vs, b, e);
    for(std::size_t k = 0; k < D; k++) { ev_assume(e[k] - b[k] <= s[k]); o[k] = ev_nat("out", 0, s[k] - (e[k] - b[k])); }
    auto w = below<D>("W", s); std::size_t c = ev_nat("c", 0, V - 1);
    Watched<D, V> A("a", s), S("src", ps); A.watch(w, c);
    auto vw = S.a.View(off, off + vs);
    const NDVecArray<float, D, V>& src = view ? vw : S.a;
    Ind<D> oe = o + (e - b);
    Row<D>::set(s, w, b, o); 
    bool inside = in<D>(o, oe, w);
    Ind<D> sw = b; if(inside) for(std::size_t k = 0; k < D; k++) sw[k] = b[k] + (w[k] - o[k]);
    for(std::size_t k = 0; k < D; k++) evl::Ghost<D>::w[k] = inside ? sw[k] : std::numeric_limits<std::size_t>::max();
#ifdef EV_VERIFY
    Row<D>::source(ps, off + b);
    in_range<D>(ps, off + sw);
    std::uint32_t want = ev::bits(S.a[off + sw][c]);
#else
    std::vector<float> keep(raw(S.a), raw(S.a) + S.a.GetVolume());
#endif
    ev_cover("reached");
    A.a.fill_from(src, b, e, o);
    A.each([&](const Ind<D>& x, std::size_t c, std::uint32_t old) {
      if(in<D>(o, oe, x)) {
#ifndef EV_VERIFY
	std::uint32_t want = ev::bits(S.a[off + b + (x - o)][c]);
#endif
	ev_check(ev::bits(A.a[x][c]) == want, "every element of the region is the source element");
      }
      else ev_check(ev::bits(A.a[x][c]) == old, "elements outside the region are unchanged"); });
#ifndef EV_VERIFY
    ev_check(!std::memcmp(keep.data(), raw(S.a), 4 * S.a.GetVolume()), "the source is unchanged");
#endif
    ev_check(A.a.GetShape() == s, "copying a region keeps the shape of the target");
  }
  // ---- copy construction and assignment of whole arrays, the source being an array or a view
  template <std::size_t D, std::size_t V> void assign(int how) {   // 0: assign array, 1: assign view, 2: copy-construct from array, 3: copy-construct from view
    bool view = how & 1;
    auto ps = shape<D>("source"); Ind<D> off(0u), vs = ps;
    if(view) for(std::size_t k = 0; k < D; k++) { off[k] = ev_nat("off", 0, ps[k] - 1); vs[k] = ev_nat("vshape", 1, ps[k] - off[k]); }
    auto w = below<D>("W", vs); std::size_t c = ev_nat("c", 0, V - 1);
    Watched<D, V> S("src", ps); S.watch(off + w, c);
    auto vw = S.a.View(off, off + vs);
    const NDVecArray<float, D, V>& src = view ? vw : S.a;
    Ind<D> zero(0u);
    Row<D>::set(vs, w, zero, zero); Row<D>::source(ps, off); evl::Ghost<D>::w = w;
    in_range<D>(vs, w);
    ev_cover("reached");
    auto post = [&](NDVecArray<float, D, V>& A) {
      ev_check(A.GetShape() == vs && A.owns_data(), "the copy has the shape of the source and owns its data");
      std::size_t n = 1; for(std::size_t k = 0; k < D; k++) n *= vs[k];
      ev_check(A.GetNumberElements() == n && A.GetVolume() == n * V, "the copy has the number of elements of the source");
      ev_check(ev::separate(raw(A), raw(S.a)), "the copy has its own storage");
#ifdef EV_VERIFY
      ev_check(ev::bits(A[w][c]) == S.old, "every element of the copy is the source element");
      ev_check(ev::bits(S.a[off + w][c]) == S.old, "the source is unchanged");
#else
      S.each([&](const Ind<D>& x, std::size_t c, std::uint32_t old) {
	ev_check(ev::bits(S.a[x][c]) == old, "the source is unchanged");
	if(in<D>(off, off + vs, x)) ev_check(ev::bits(A[x - off][c]) == old, "every element of the copy is the source element"); });
#endif
    };
    if(how < 2) {
      Ind<D> os = shape<D>("oldshape");
      NDVecArray<float, D, V> A(os);
      ev_havoc(raw(A), A.GetVolume() * sizeof(float), "a");
      Target<D, V>::set(A, w, c);
      A = src;
      post(A);
    } else {
      Room<D, V> R; Target<D, V>::set(R.at(), w, c);
      new (R.raw) NDVecArray<float, D, V>(src); R.built = true;
      post(R.at());
    }
  }
  // ---- append along axis 0; the appended array may be a view
  template <std::size_t D, std::size_t V> void append(bool view, bool rt) {
    auto s = shape<D>("shape"), vs = s; vs[0] = ev_nat("len", 1, LIM<D>);
    Ind<D> ps = vs, off(0u);
    if(view) for(std::size_t k = 0; k < D; k++) { off[k] = ev_nat("off", 0, LIM<D>); ps[k] = ev_nat("parent", off[k] + vs[k], 2 * LIM<D>); }
    Ind<D> ns = s; ns[0] = s[0] + vs[0];
    auto w = below<D>("W", ns); std::size_t c = ev_nat("c", 0, V - 1);
    Watched<D, V> A("a", s), S("src", ps);
    auto vw = S.a.View(off, off + vs);
    const NDVecArray<float, D, V>& src = view ? vw : S.a;
    Ind<D> start(0u), zero(0u); start[0] = s[0];
    bool mine = w[0] < s[0];
    Ind<D> sw(0u); if(!mine) { sw = w; sw[0] = w[0] - s[0]; }
#ifdef EV_VERIFY
    A.w = w; A.c = c;
    in_range<D>(ns, w); in_range<D>(ps, off + sw);
    std::uint32_t want;
    if(mine) { in_range<D>(s, w); float* p = &A.a[w][c]; ev_witness(p, 4); want = ev::bits(*p); } else want = ev::bits(S.a[off + sw][c]);
#else
    A.watch(w, c); 
    std::vector<std::uint32_t> olds = A.all;
#endif
    Row<D>::set(ns, w, zero, start); Row<D>::source(ps, off);
    for(std::size_t k = 0; k < D; k++) evl::Ghost<D>::w[k] = mine ? std::numeric_limits<std::size_t>::max() : sw[k];
    Target<D, V>::set(A.a, w, c);
    ev_cover("reached");
    if(rt) A.a.Append(src, 0); else A.a.template Append<0>(src);
    ev_check(A.a.GetShape() == ns, "appending adds the extents along axis 0");
    A.each([&](const Ind<D>& x, std::size_t c, std::uint32_t) {
#ifndef EV_VERIFY
      std::uint32_t want; Ind<D> y = x;
      if(x[0] < s[0]) { std::size_t f = 0; for(std::size_t k = 0; k < D; k++) f = f * s[k] + x[k]; want = olds[f * V + c]; } else { y[0] -= s[0]; want = ev::bits(S.a[off + y][c]); }
#endif
      ev_check(ev::bits(A.a[x][c]) == want, "the result is the concatenation along axis 0"); });
  }
  // ---- fill a column along the last axis
  template <std::size_t D, std::size_t V> void column() {
    auto s = shape<D>("shape"); auto o = below<D>("out", s); std::size_t len = ev_nat("len", 1, s[D - 1] - o[D - 1]);
    auto w = below<D>("W", s); std::size_t c = ev_nat("c", 0, V - 1);
    Watched<D, V> A("a", s); A.watch(w, c);
    NDVecArray<float, 1, V> col(len); ev_havoc(raw(col), len * V * 4, "col");
    Ind<D> e = o; for(std::size_t k = 0; k + 1 < D; k++) e[k] = o[k] + 1; e[D - 1] = o[D - 1] + len;
    bool inside = in<D>(o, e, w);
#ifdef EV_VERIFY
    Row<D>::set(s, w, o, o); Row<D>::every(o, e); if(!inside) Row<D>::hook(o, e);
    std::uint32_t want = ev::bits(col[inside ? w[D - 1] - o[D - 1] : 0][c]);
#endif
    ev_cover("reached");
    A.a.template fill_from<D - 1>(col, o);
    A.each([&](const Ind<D>& x, std::size_t c, std::uint32_t old) {
      if(in<D>(o, e, x)) {
#ifndef EV_VERIFY
	std::uint32_t want = ev::bits(col[x[D - 1] - o[D - 1]][c]);
#endif
	ev_check(ev::bits(A.a[x][c]) == want, "every element of the column is the given one");
      } else ev_check(ev::bits(A.a[x][c]) == old, "elements outside the column are unchanged"); });
    ev_check(A.a.GetShape() == s, "filling a column keeps the shape");
  }
  // ---- whole-array fills: clear, constructor with value, assignment of a value, resize with value
  template <std::size_t D, std::size_t V> void whole() {
    auto s = shape<D>("shape"); auto w = below<D>("W", s); std::size_t c = ev_nat("c", 0, V - 1);
    std::size_t how = ev_nat("how", 0, 3);
    Ind<D> zero(0u);
    Row<D>::set(s, w, zero, zero); evl::Ghost<D>::w = w;
    in_range<D>(s, w);
    float val = how == 0 ? 0.0f : 1.5f;
    ev_cover("reached");
    auto post = [&](NDVecArray<float, D, V>& a) {
      ev_check(a.GetShape() == s, "the array has the requested shape");
#ifdef EV_VERIFY
      ev_check(ev::bits(a[w][c]) == ev::bits(val), "every element has the fill value");
#else
      std::size_t n = V; for(std::size_t k = 0; k < D; k++) n *= s[k];
      ev_check(a.GetVolume() == n, "volume"); for(std::size_t i = 0; i < n; i++) ev_check(ev::bits(raw(a)[i]) == ev::bits(val), "every element has the fill value");
#endif
    };
    if(how == 0) { Watched<D, V> A("a", s); A.a.clear(); post(A.a); }
    else if(how == 1) { Room<D, V> R; Target<D, V>::set(R.at(), w, c); new (R.raw) NDVecArray<float, D, V>(s, val); R.built = true; post(R.at()); }
    else if(how == 2) { Watched<D, V> A("a", s); Target<D, V>::set(A.a, w, c); A.a = val; post(A.a); }
    else { Ind<D> os = shape<D>("oldshape"); Watched<D, V> A("a", os); Target<D, V>::set(A.a, w, c); A.a.resize(s, val); post(A.a); }
  }
  // ---- IsAllNull
  template <std::size_t D, std::size_t V> void allnull_true() {     // answering true implies that every element is zero
    auto ps = shape<D>("source"); Ind<D> off(0u), vs = ps;
    bool view = ev_bool("view");
    if(view) for(std::size_t k = 0; k < D; k++) { off[k] = ev_nat("off", 0, ps[k] - 1); vs[k] = ev_nat("vshape", 1, ps[k] - off[k]); }
    auto w = below<D>("W", vs); std::size_t c = ev_nat("c", 0, V - 1);
    Watched<D, V> S("src", ps);
#ifndef EV_VERIFY
    if(ev_bool("zero")) { std::memset(raw(S.a), 0, 4 * S.a.GetVolume()); if(ev_bool("negzero")) S.a[off + w][c] = -0.0f; else if(ev_bool("one")) { auto x = below<D>("x", ps); S.a[x][c] = 1e-40f; } }
#endif
    auto vw = S.a.View(off, off + vs);
    const NDVecArray<float, D, V>& src = view ? vw : S.a;
    Ind<D> zero(0u);
    in_range<D>(ps, off + w);
    Row<D>::set(vs, w, zero, zero); Row<D>::source(ps, off); evl::Ghost<D>::w = w;
#ifdef EV_VERIFY
    evl::cell = &S.a[off + w][c];
#endif
    ev_cover("reached");
    bool r = src.IsAllNull();
#ifdef EV_VERIFY
    float v = S.a[off + w][c];
    if(r) ev_check(v == (float)0.0, "an all-null array has no non-zero element");
#else
    bool want = true; S.each([&](const Ind<D>& x, std::size_t c, std::uint32_t) { if(in<D>(off, off + vs, x) && !(ev::bits(S.a[x][c]) << 1 == 0)) want = false; });
    ev_check(r == want, "all-null is reported exactly when every element is zero");
#endif
  }
#ifdef EV_VERIFY
  template <std::size_t D, std::size_t V> void allnull_false() {    // an array or view with zero contents is reported all-null, whatever surrounds the view
    auto ps = shape<D>("source"); Ind<D> off(0u), vs = ps;
    bool view = ev_bool("view");
    if(view) for(std::size_t k = 0; k < D; k++) { off[k] = ev_nat("off", 0, ps[k] - 1); vs[k] = ev_nat("vshape", 1, ps[k] - off[k]); }
    NDVecArray<float, D, V> a(ps);
    ev_zero(raw(a), a.GetVolume() * 4, 4);
    auto w = below<D>("W", ps); std::size_t c = ev_nat("c", 0, V - 1);
    in_range<D>(ps, w);
    Ind<D> zero(0u), out;
    for(std::size_t k = 0; k < D; k++) out[k] = std::numeric_limits<std::size_t>::max();
    if(!in<D>(off, off + vs, w)) a[w][c] = 1.5f;
    Row<D>::set(ps, w, zero, off); evl::Ghost<D>::w = out;
    if(in<D>(off, off + vs, w)) evl::Ghost<D>::lemma = nullptr;
    auto vw = a.View(off, off + vs);
    const NDVecArray<float, D, V>& src = view ? vw : a;
    ev_cover("reached");
    bool r = src.IsAllNull();
    ev_check(r, "an array or view that holds only zeros is all-null");
  }
#endif
#ifdef EV_VERIFY
  // contract of NDVecArray::index_loop_over_elements(worker) (verified in c02a.cc): every index once, with its own element
  template <std::size_t D, std::size_t V> void all_elements(const NDVecArray<float, D, V>* a, void* worker, void (*call)(void*, const Ind<D>&, const VectorView<float, V>&)) {
    const Ind<D>& w = evl::Ghost<D>::w; const Ind<D> s = a->GetShape();
    for(std::size_t k = 0; k < D; k++) if(s[k] == 0) return;
    if(evl::Ghost<D>::before) evl::Ghost<D>::before();
    Ind<D> cur;
    auto other = [&](bool before) { for(std::size_t k = 0; k < D; k++) { std::size_t x = ev_any(); ev_assume(x < s[k]); cur[k] = x; } ev_assume(before ? evl::lex<D>(cur, w) : evl::lex<D>(w, cur));
      if(Pair<D>::on) Pair<D>::hook(cur); auto v = (*a)[cur]; call(worker, cur, v); };
    while(ev_any_bool()) other(true);
    cur = w; { auto v = (*a)[cur]; call(worker, cur, v); }
    while(ev_any_bool()) other(false);
  }
#endif
  // ---- swap two axes
  template <std::size_t D, std::size_t V, std::size_t A1, std::size_t A2> void swap(bool view) {
    auto ps = shape<D>("source"); Ind<D> off(0u), vs = ps;
    if(view) for(std::size_t k = 0; k < D; k++) { off[k] = ev_nat("off", 0, ps[k] - 1); vs[k] = ev_nat("vshape", 1, ps[k] - off[k]); }
    auto w = below<D>("W", vs); std::size_t c = ev_nat("c", 0, V - 1);
    Watched<D, V> S("src", ps); S.watch(off + w, c);
    auto vw = S.a.View(off, off + vs);
    const NDVecArray<float, D, V>& src = view ? vw : S.a;
    NDVecArray<float, D, V> d(shape<D>("oldshape"));
    Ind<D> ds = vs; ds[A1] = vs[A2]; ds[A2] = vs[A1];
    evl::Ghost<D>::w = w;
    Ind<D> dw = w; std::swap(dw[A1], dw[A2]);
    Row<D>::set(vs, w, Ind<D>(0u), Ind<D>(0u)); Row<D>::source(ps, off);
    in_range<D>(ds, dw);
#ifdef EV_VERIFY
    Pair<D>::s = ds; Pair<D>::w = dw; Pair<D>::ps = ps; Pair<D>::off = off; Pair<D>::a1 = A1; Pair<D>::a2 = A2; Pair<D>::on = true;
    ev_replace_cb(">::index_loop_over_elements<", (void*)&all_elements<D, V>);
#endif
    Target<D, V>::set(d, dw, c);
    ev_cover("reached");
    src.template SwapAxes<A1, A2>(d);
    ev_check(d.GetShape() == ds, "the shape has the two extents swapped");
    S.each([&](const Ind<D>& y, std::size_t c, std::uint32_t old) {
      Ind<D> x = y;
      if(!in<D>(off, off + vs, y)) return;
      x = y - off; std::swap(x[A1], x[A2]);
      ev_check(ev::bits(d[x][c]) == old, "the element with two indices swapped is the original element");
      ev_check(ev::bits(S.a[y][c]) == old, "the source is unchanged"); });
  }
}
#define ALL(D, V) \
  extern "C" void ev_contract_fill_##D##_##V() { fill<D, V>(); } \
  extern "C" void ev_contract_fillview_##D##_##V() { fillview<D, V>(); } \
  extern "C" void ev_contract_copy_##D##_##V() { copy<D, V>(false); } \
  extern "C" void ev_contract_copyview_##D##_##V() { copy<D, V>(true); } \
  extern "C" void ev_contract_assign_##D##_##V() { assign<D, V>(0); } \
  extern "C" void ev_contract_assignview_##D##_##V() { assign<D, V>(1); } \
  extern "C" void ev_contract_construct_##D##_##V() { assign<D, V>(2); } \
  extern "C" void ev_contract_constructview_##D##_##V() { assign<D, V>(3); } \
  extern "C" void ev_contract_append_##D##_##V() { append<D, V>(false, D == 1); } \
  extern "C" void ev_contract_appendview_##D##_##V() { append<D, V>(true, D == 1); } \
  extern "C" void ev_contract_column_##D##_##V() { column<D, V>(); } \
  extern "C" void ev_contract_whole_##D##_##V() { whole<D, V>(); } \
  extern "C" void ev_contract_allnull_##D##_##V() { allnull_true<D, V>(); } ALLV(D, V)
#ifdef EV_VERIFY
#define ALLV(D, V) extern "C" void ev_contract_allzero_##D##_##V() { allnull_false<D, V>(); }
#else
#define ALLV(D, V)
#endif
ALL(1, 1) ALL(1, 2) ALL(2, 1) ALL(2, 2) ALL(3, 1) ALL(3, 2)
#define SWAP(D, V, A, B) extern "C" void ev_contract_swap_##D##_##V##_##A##B() { swap<D, V, A, B>(false); } extern "C" void ev_contract_swapview_##D##_##V##_##A##B() { swap<D, V, A, B>(true); }
SWAP(2, 1, 0, 1) SWAP(2, 2, 1, 0) SWAP(3, 1, 0, 1) SWAP(3, 2, 0, 2) SWAP(3, 1, 1, 2)
