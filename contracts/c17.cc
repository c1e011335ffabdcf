#include "ev.hh"
#include "Vector.hh"
#include "ChunkUtils.hh"
#include "RStarTree.hh"
// Box geometry: every corner below 2^40 (so that corner + extent is representable), any dimension 1..3
namespace {
  template <std::size_t D> Vector<std::size_t, D> vec(const char* n, std::size_t lo, std::size_t hi) {
    Vector<std::size_t, D> v; for(std::size_t i = 0; i < D; i++) v[i] = ev_nat(n, lo, hi); return v;
  }
  template <std::size_t D> bool inside(const Vector<std::size_t, D>& s, const Vector<std::size_t, D>& e, const Vector<std::size_t, D>& x) {
    bool r = true; for(std::size_t i = 0; i < D; i++) r = r & (s[i] <= x[i]) & (x[i] < e[i]); return r;
  }

  template <std::size_t D> void contains() {
    auto start = vec<D>("start", 0, EV_BIG), shape = vec<D>("shape", 0, EV_BIG), x = vec<D>("x", 0, 2 * EV_BIG);
    auto s0 = start, h0 = shape;
    bool got = ChunkUtils::contains(start, shape, x);
    bool want = true; for(std::size_t i = 0; i < D; i++) want = want & (start[i] <= x[i]) & (x[i] < start[i] + shape[i]);
    ev_cover("reached");
    ev_check(got == want, "contains is true exactly for the points of the box");
    BoundingBox<std::size_t, D> bb(start, start + shape);
    ev_check(bb.contains(x) == want, "BoundingBox::contains is true exactly for the points of the box");
    ev_check(s0 == start && h0 == shape, "arguments unchanged");
  }
  template <std::size_t D> void overlaps() {
    auto as = vec<D>("as", 0, EV_BIG), ah = vec<D>("ah", 1, EV_BIG), bs = vec<D>("bs", 0, EV_BIG), bh = vec<D>("bh", 1, EV_BIG);
    auto x = vec<D>("x", 0, 2 * EV_BIG);
    bool got = ChunkUtils::overlaps(as, ah, bs, bh);
    BoundingBox<std::size_t, D> a(as, as + ah), b(bs, bs + bh);
    bool got2 = a.overlaps(b);
    ev_cover("reached");
    bool shared = inside<D>(as, as + ah, x) & inside<D>(bs, bs + bh, x);
    // a shared index implies overlap; overlap implies the shared index max(start) exists
    ev_check(!shared || got, "boxes sharing an index overlap");
    ev_check(!shared || got2, "BoundingBoxes sharing an index overlap");
    Vector<std::size_t, D> m; for(std::size_t i = 0; i < D; i++) m[i] = as[i] < bs[i] ? bs[i] : as[i];
    ev_check(!got || (inside<D>(as, as + ah, m) && inside<D>(bs, bs + bh, m)), "overlapping boxes share an index");
    ev_check(!got2 || (inside<D>(as, as + ah, m) && inside<D>(bs, bs + bh, m)), "overlapping BoundingBoxes share an index");
    Vector<std::size_t, D> os, oh;
    ChunkUtils::get_chunk_overlap(as, ah, bs, bh, os, oh);
    for(std::size_t i = 0; i < D; i++) if(as[i] + ah[i] <= bs[i]) ev_check(oh[i] == 0, "no overlap along a direction in which the first box ends before the second begins");
    if(got) {
      bool in = true; for(std::size_t i = 0; i < D; i++) in = in & (os[i] <= x[i]) & (x[i] < os[i] + oh[i]) & (oh[i] <= 2 * EV_BIG);
      ev_cover("overlap");
      ev_check(in == shared, "the computed overlap is exactly the intersection");
    }
  }
  template <std::size_t D> void bbox() {
    auto as = vec<D>("as", 0, EV_BIG), ae = vec<D>("ae", 0, EV_BIG), bs = vec<D>("bs", 0, EV_BIG), be = vec<D>("be", 0, EV_BIG);
    for(std::size_t i = 0; i < D; i++) { ev_assume(as[i] < ae[i]); ev_assume(bs[i] < be[i]); }
    BoundingBox<std::size_t, D> a(as, ae), b(bs, be);
    BoundingBox<std::size_t, D> h(a, b);
    ev_cover("reached");
    for(std::size_t i = 0; i < D; i++) {
      ev_check(h.start_coords[i] == (as[i] < bs[i] ? as[i] : bs[i]), "the hull starts at the smaller start");
      ev_check(h.end_coords[i] == (ae[i] > be[i] ? ae[i] : be[i]), "the hull ends at the larger end");
      ev_check(h.shape[i] == h.end_coords[i] - h.start_coords[i], "the shape of the hull is its extent");
      ev_check(a.start_coords[i] == as[i] && a.end_coords[i] == ae[i] && a.shape[i] == ae[i] - as[i] && b.start_coords[i] == bs[i], "the parts are unchanged");
    }
    // the empty box is neutral
    BoundingBox<std::size_t, D> e; e.extend(a);
    for(std::size_t i = 0; i < D; i++) ev_check(e.start_coords[i] == as[i] && e.end_coords[i] == ae[i] && e.shape[i] == ae[i] - as[i], "extending the empty box gives the box itself");
    e.reset_bounding_box(); e.extend(b.start_coords, b.end_coords);
    for(std::size_t i = 0; i < D; i++) ev_check(e.start_coords[i] == bs[i] && e.end_coords[i] == be[i], "extending a reset box gives the box itself");
    e.update(as, ae);
    for(std::size_t i = 0; i < D; i++) ev_check(e.start_coords[i] == as[i] && e.end_coords[i] == ae[i] && e.shape[i] == ae[i] - as[i], "update sets corners and shape");
    BoundingBox<std::size_t, D> c(a), d; d = a;
    for(std::size_t i = 0; i < D; i++) ev_check(c.start_coords[i] == as[i] && c.end_coords[i] == ae[i] && c.shape[i] == ae[i] - as[i] && d.start_coords[i] == as[i] && d.end_coords[i] == ae[i] && d.shape[i] == a.shape[i], "copies have the same corners and shape");
  }
  template <std::size_t D> struct Boxes { Vector<std::size_t, D> as, ae, bs, be;
    Boxes() { const std::size_t lim = EV_BIG >> 20 ? (1ull << 20) : EV_BIG;     // extents whose product is representable
      as = vec<D>("as", 0, lim); ae = vec<D>("ae", 0, lim); bs = vec<D>("bs", 0, lim); be = vec<D>("be", 0, lim);
      for(std::size_t i = 0; i < D; i++) { ev_assume(as[i] <= ae[i]); ev_assume(bs[i] <= be[i]); } } };
  template <std::size_t D> void volume() {
    Boxes<D> x; BoundingBox<std::size_t, D> a(x.as, x.ae);
    std::size_t vol = 1, mar = 0;
    for(std::size_t i = 0; i < D; i++) { vol *= x.ae[i] - x.as[i]; mar += x.ae[i] - x.as[i]; }
    ev_cover("reached");
    ev_check(a.volume() == vol, "volume is the product of the extents");
    ev_check(a.margin() == mar, "margin is the sum of the extents");
  }
  template <std::size_t D> void overlapvol() {
    Boxes<D> x; BoundingBox<std::size_t, D> a(x.as, x.ae), b(x.bs, x.be);
    std::size_t ov = 1; bool any = true;
    std::size_t got = a.compute_overlap_volume(b);
    for(std::size_t i = 0; i < D; i++) {
      std::size_t lo = x.as[i], hi = x.ae[i]; if(x.bs[i] > lo) lo = x.bs[i]; if(x.be[i] < hi) hi = x.be[i];
      if(hi > lo) ov *= hi - lo; else any = false;
    }
    ev_cover("reached");
    if(any) ev_check(got == ov, "overlap volume is the number of shared indices"); else ev_check(got == 0, "overlap volume is zero without a shared index");
  }
  template <std::size_t D> struct UI { Vector<std::size_t, D> u; Vector<int, D> s; std::size_t i;
    UI() { for(std::size_t k = 0; k < D; k++) { u[k] = ev_nat("u", 0, EV_BIG); s[k] = (int)ev_int("s", -2147483647 - 1, 2147483647); } i = ev_nat("i", 0, D - 1); ev_cover("reached"); } };
  template <std::size_t D> void max_us() { UI<D> x; std::size_t i = x.i;
    auto mx = VectorUtils::max(x.u, x.s);
    ev_check(mx[i] == ((x.s[i] > 0 && (std::size_t)x.s[i] > x.u[i]) ? (std::size_t)x.s[i] : x.u[i]), "max(unsigned, signed) compares by value");
  }
  template <std::size_t D> void min_us() { UI<D> x; std::size_t i = x.i;
    auto mi = VectorUtils::min(x.u, x.s);     // the result is representable for non-negative operands
    if(x.s[i] >= 0) ev_check(mi[i] == ((std::size_t)x.s[i] < x.u[i] ? (std::size_t)x.s[i] : x.u[i]), "min(unsigned, signed) compares by value");
  }
  template <std::size_t D> void min_su() { UI<D> x; std::size_t i = x.i;
    auto mi = VectorUtils::min(x.s, x.u);
    if(x.s[i] < 0) ev_check(mi[i] == x.s[i], "min(signed, unsigned) of a negative operand");
    else ev_check((std::size_t)mi[i] == ((std::size_t)x.s[i] < x.u[i] ? (std::size_t)x.s[i] : x.u[i]), "min(signed, unsigned) compares by value");
  }
  template <std::size_t D> void max_su() { UI<D> x; std::size_t i = x.i;
    auto mx = VectorUtils::max(x.s, x.u);
    if(x.u[i] <= 2147483647u) ev_check((std::int64_t)mx[i] == (x.s[i] > (std::int64_t)x.u[i] ? (std::int64_t)x.s[i] : (std::int64_t)x.u[i]), "max(signed, unsigned) compares by value");
  }
  template <std::size_t D> void minmax_u() {
    auto u = vec<D>("u", 0, EV_BIG), w = vec<D>("w", 0, EV_BIG); std::size_t i = ev_nat("i", 0, D - 1), c = ev_nat("c", 0, EV_BIG);
    ev_cover("reached");
    auto a = VectorUtils::min(u, w);
    ev_check(a[i] == (u[i] < w[i] ? u[i] : w[i]), "min of unsigned vectors");
    auto b = VectorUtils::max(u, w);
    ev_check(b[i] == (u[i] < w[i] ? w[i] : u[i]), "max of unsigned vectors");
    auto ms = VectorUtils::min(u, c);
    ev_check(ms[i] == (u[i] < c ? u[i] : c), "min with a scalar");
  }
  template <std::size_t D> void vecops() {
    auto u = vec<D>("u", 0, EV_BIG), w = vec<D>("w", 0, EV_BIG); std::size_t c = ev_nat("c", 0, EV_BIG);
    ev_cover("reached");
    // element-wise arithmetic the helpers are built from
    auto sum = u + w; auto ssum = u + c;
    for(std::size_t i = 0; i < D; i++) ev_check(sum[i] == u[i] + w[i] && ssum[i] == u[i] + c && (sum - w)[i] == u[i], "element-wise sums and differences");
    bool ge = true, eq = true; for(std::size_t i = 0; i < D; i++) { ge = ge & (u[i] >= w[i]); eq = eq & (u[i] == w[i]); }
    ev_check((u >= w) == ge && (u == w) == eq && (u != w) == !eq, "comparisons of vectors are element-wise");
  }
}
#define CONTRACT(n) extern "C" void ev_contract_##n##1() { n<1>(); } extern "C" void ev_contract_##n##2() { n<2>(); } extern "C" void ev_contract_##n##3() { n<3>(); }
CONTRACT(contains) CONTRACT(overlaps) CONTRACT(bbox) CONTRACT(volume) CONTRACT(overlapvol) CONTRACT(max_us) CONTRACT(min_us) CONTRACT(min_su) CONTRACT(max_su) CONTRACT(minmax_u) CONTRACT(vecops)
