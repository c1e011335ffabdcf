#include "loops_contract.hh"
#include "Common.hh"
#include "Serialization.hh"
#include "Symmetry.hh"
// The cylindrical boundary rule.  A chunk of arbitrary shape sits at an arbitrary start index (r from 0 or below zero: the overlap
// of the innermost chunks reaches to negative r); x is the cell to fill, W another cell of the chunk.
namespace {
  using S = SpatialSymmetry::Cylindrical<float>;
  using Ind = Vector<std::size_t, 3>; using SInd = RZTSignedIndexVector;
#ifdef EV_VERIFY
  constexpr std::int64_t LIM = 1 << 18, START = 1 << 28;
#else
  constexpr std::int64_t LIM = 6, START = 6;
#endif
  void in_range(const Ind& s, const Ind& i) {
    std::size_t f = 0, n = 1;
    for(std::size_t k = 0; k < 3; k++) { f = f * s[k] + i[k]; n = n * s[k]; ev_check(f + 1 <= n, "lemma: the position of an in-range index is below the number of elements"); }
  }
  void rule(bool mirrored) {
    Ind s, x, m; SInd start, end, elem;
    for(std::size_t k = 0; k < 3; k++) { s[k] = ev_nat("shape", 1, LIM); start[k] = (int)ev_int("start", -START, START); end[k] = start[k] + (int)s[k]; x[k] = ev_nat("x", 0, s[k] - 1); elem[k] = start[k] + (int)x[k]; }
    std::size_t c = ev_nat("c", 0, 1);
    if(mirrored) {
      ev_assume(elem[0] < 0); int d = -elem[0] - start[0]; ev_assume(d >= 0); ev_assume(d < (int)s[0]);    // the chunk holds the mirror image
      m = x; m[0] = (std::size_t)d;
    } else ev_assume(elem[0] >= 0);
    S::chunk_t chunk(s); ev_havoc(&*chunk.data(), chunk.GetVolume() * 4, "chunk");
    in_range(s, x); if(mirrored) in_range(s, m);
    // an arbitrary other cell
    Ind w; for(std::size_t k = 0; k < 3; k++) w[k] = ev_nat("w", 0, s[k] - 1);
    std::size_t cw = ev_nat("cw", 0, 1); ev_assume(!(w == x)); in_range(s, w);
    std::uint32_t other = ev::bits(chunk[w][cw]), image = mirrored ? ev::bits(chunk[m][c]) : 0;
    std::size_t pw = (w[0] * s[1] + w[1]) * s[2] + w[2], px = (x[0] * s[1] + x[1]) * s[2] + x[2];
    if(w[0] < x[0]) { ev_check(w[0] * s[1] + w[1] + 1 <= x[0] * s[1] + x[1], "lemma: rows are ordered"); ev_check(pw + 1 <= px, "lemma: positions are ordered"); }
    else if(x[0] < w[0]) { ev_check(x[0] * s[1] + x[1] + 1 <= w[0] * s[1] + w[1], "lemma: rows are ordered"); ev_check(px + 1 <= pw, "lemma: positions are ordered"); }
    else if(w[1] < x[1]) { ev_check(w[0] * s[1] + w[1] + 1 <= x[0] * s[1] + x[1], "lemma: rows are ordered"); ev_check(pw + 1 <= px, "lemma: positions are ordered"); }
    else if(x[1] < w[1]) { ev_check(x[0] * s[1] + x[1] + 1 <= w[0] * s[1] + w[1], "lemma: rows are ordered"); ev_check(px + 1 <= pw, "lemma: positions are ordered"); }
    ev_cover("reached");
#ifndef EV_VERIFY
    S::chunk_t before(chunk);
#endif
    S::boundary_evaluator(chunk, start, end, elem, chunk[x]);
    if(mirrored) ev_check(ev::bits(chunk[x][c]) == image, "the cell holds the value at the mirrored radius, same z and t");
    else ev_check(ev::bits(chunk[x][c]) == 0, "the cell holds zero");
    ev_check(ev::bits(chunk[w][cw]) == other, "every other cell is unchanged");
#ifndef EV_VERIFY
    if(mirrored) ev_check(ev::bits(chunk[x][1 - c]) == ev::bits(before[m][1 - c]), "the cell holds the value at the mirrored radius, same z and t"); else ev_check(ev::bits(chunk[x][1 - c]) == 0, "the cell holds zero");
    for(std::size_t i = 0; i < s[0]; i++) for(std::size_t j = 0; j < s[1]; j++) for(std::size_t k = 0; k < s[2]; k++) if(!(Ind{i, j, k} == x)) for(std::size_t v = 0; v < 2; v++) ev_check(ev::bits(chunk[Ind{i, j, k}][v]) == ev::bits(before[Ind{i, j, k}][v]), "every other cell is unchanged");
#endif
    ev_check(chunk.GetShape() == s, "the shape is unchanged");
  }
}
extern "C" void ev_contract_mirror() { rule(true); }
extern "C" void ev_contract_zero() { rule(false); }
