#include "ev.hh"
#include "Quadrature.hh"
// TrapezoidalRule::fill_weights
extern "C" void ev_contract_fill_weights() {
  std::size_t N = ev_nat("N", 2, EV_BIG), a = ev_nat("a", 0, EV_BIG), b = ev_nat("b", 1, EV_BIG);
  ev_assume(a < b); ev_assume(b <= N);
  std::size_t pre = ev_nat("pre", 0, 8), post = ev_nat("post", 0, 8);
  std::vector<float> w(pre + (b - a) + post);
  ev_havoc(w.data(), w.size() * sizeof(float), "w");
  std::size_t i = ev_nat("i", 0, 2 * EV_BIG); ev_assume(i < w.size());
  float old = w[i];
  Quadrature::TrapezoidalRule::fill_weights(a, b, N, w.begin() + pre, w.begin() + pre + (b - a));
  ev_cover("reached");
  if(i < pre || i >= pre + (b - a)) ev_check(ev::bits(w[i]) == ev::bits(old), "weights outside the block unchanged");
  else {
    std::size_t g = a + (i - pre);
    float want = (g == 0 || g == N - 1) ? 0.5f : 1.0f;
    ev_check(ev::bits(w[i]) == ev::bits(want), "weight is 1/2 at the ends of the whole range and 1 elsewhere");
  }
}
