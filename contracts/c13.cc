#include "ev.hh"
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "clang_compat.hh"
// Interpolation kernels and array interpolation.  In the verifier floating point is exact real arithmetic; natively the
// comparisons allow for single-precision rounding.
namespace {
  using namespace Interpolation;
#ifdef EV_VERIFY
  constexpr double TOL = 1e-6;
  double frac(const char* n) { double x = ev_real(n); ev_assume(x >= 0); ev_assume(x < 1); return x; }
#else
  constexpr double TOL = 1e-5;
  double frac(const char* n) { std::size_t h = ev_nat(n, 0, 15); return (double)(16 * h + ev_nat(n, 0, 15)) / 256; }
#endif
  bool close(double a, double b) { double d = a - b; return d <= TOL && d >= -TOL; }
  void linear() {
    ev_real_mode();
    double x = frac("x"); scalar_t w[2];
    ev_cover("reached");
    Kernel::Linear::kern((scalar_t)x, w);
    ev_check(close((double)w[0] + w[1], 1), "the weights sum to one");
    ev_check(close(w[1], x), "linear data is reproduced");
    if(x == 0) ev_check(w[0] == 1 && w[1] == 0, "weight one for the sample itself");
  }
  template <int P> void keys() {
    ev_real_mode();
    double x = frac("x"); scalar_t w[4];
    ev_cover("reached");
    Kernel::Keys::kern((scalar_t)x, w);
    if constexpr(P == 0) ev_check(close((double)w[0] + w[1] + w[2] + w[3], 1), "the weights sum to one");
    if constexpr(P == 1) ev_check(close(-(double)w[0] + w[2] + 2.0 * w[3], x), "linear data is reproduced");
    if constexpr(P == 2) ev_check(close((double)w[0] + w[2] + 4.0 * w[3], x * x), "quadratic data is reproduced");
    if constexpr(P == 3) if(x == 0) ev_check(close(w[0], 0) && close(w[1], 1) && close(w[2], 0) && close(w[3], 0), "weight one for the sample itself");
    if constexpr(P == 4) {    // the Keys kernel: with the three moment conditions one more coefficient fixes all weights
      ev_check(close(w[3], 0.5 * (x - 1) * x * x), "weight of the outermost sample");
      ev_check(close(w[0], 0.5 * (1 - x) * (1 - x) * -x), "weight of the innermost sample"); 
    }
  }
#ifdef EV_VERIFY
  // the array interpolation is verified for arbitrary kernels of the same support: the weights are opaque functions of the fraction
  void any_kernel(std::size_t n, scalar_t x, scalar_t* w) {
    ev_check(x >= 0, "kernel precondition: non-negative fraction"); ev_check(x < 1, "kernel precondition: fraction below one");
    w[0] = __builtin_sinf(x); w[1] = __builtin_cosf(x); if(n == 4) { w[2] = __builtin_expf(x); w[3] = __builtin_logf(x); }
  }
  void keys_contract(scalar_t x, scalar_t* w) { any_kernel(4, x, w); }
  void linear_contract(scalar_t x, scalar_t* w) { any_kernel(2, x, w); }
#endif
  template <class K> void weights(scalar_t x, scalar_t* w) {
#ifdef EV_VERIFY
    any_kernel(2 * K::support, x, w);
#else
    K::kern(x, w);
#endif
  }
  template <class K, std::size_t V, std::size_t N> void interp() {
    ev_real_mode();
#ifdef EV_VERIFY
    ev_replace("Interpolation::Kernel::Keys::kern(", (void*)&keys_contract); ev_replace("Interpolation::Kernel::Linear::kern(", (void*)&linear_contract);
    constexpr std::size_t LIM = 1 << 18;
#else
    constexpr std::size_t LIM = 9;
#endif
    constexpr std::size_t S = K::support, M = 2 * S;
    Vector<std::size_t, 3> s, p; double f[3];
    for(std::size_t k = 0; k < 3; k++) { s[k] = ev_nat("shape", M, LIM); p[k] = ev_nat("pos", S - 1, s[k] - S - 1); f[k] = frac("frac"); }
    NDVecArray<scalar_t, 3, V> a(s); ev_havoc(&*a.data(), a.GetVolume() * 4, "a");
    NDVecArray<scalar_t, 1, V> r(N); r.clear();
    Vector<scalar_t, 2> outer; for(std::size_t k = 0; k < 2; k++) outer[k] = (scalar_t)((double)p[k] + f[k]);
    scalar_t start = (scalar_t)((double)p[2] + f[2]), delta = 0;
    if(N > 1) {   // the last sample must be admissible as well
#ifdef EV_VERIFY
      delta = (scalar_t)ev_real("delta"); ev_assume(delta >= 0);
#else
      delta = (scalar_t)ev_nat("delta", 0, 4 * 64) / 64;
#endif
      ev_assume(start + (scalar_t)(N - 1) * delta < (scalar_t)(s[2] - S));
    }
    ev_cover("reached");
    Interpolation::interpolate<K>(a, r, outer, start, delta, N);
    ev_check(r.GetShape()[0] == N, "the result holds the requested number of samples");
    scalar_t k0[M], k1[M], k2[M], t; 
    weights<K>(std::modf(outer[0], &t), k0); std::size_t i0 = (std::size_t)t; weights<K>(std::modf(outer[1], &t), k1); std::size_t i1 = (std::size_t)t;
    for(std::size_t n = 0; n < N; n++) {
      weights<K>(std::modf(start + n * delta, &t), k2); std::size_t i2 = (std::size_t)t;
      for(std::size_t c = 0; c < V; c++) {
	double want = 0, mag = 0;
	for(std::size_t x = 0; x < M; x++) for(std::size_t y = 0; y < M; y++) for(std::size_t z = 0; z < M; z++) {
	  Vector<std::size_t, 3> q{i0 + x - (S - 1), i1 + y - (S - 1), i2 + z - (S - 1)};
	  double term = (double)k0[x] * k1[y] * k2[z] * a[q][c];
	  want += term;
#ifndef EV_VERIFY
	  mag += std::fabs(term);
#endif
	}
#ifdef EV_VERIFY
	ev_check(r[n][c] == want, "the sample is the tensor-product combination of the elements in the kernel support");
#else
	ev_check(std::fabs(r[n][c] - want) <= 1e-5 * mag + 1e-9, "the sample is the tensor-product combination of the elements in the kernel support");
#endif
      }
    }
  }
}
extern "C" void ev_contract_linear() { linear(); }
extern "C" void ev_contract_keys_sum() { keys<0>(); }
extern "C" void ev_contract_keys_linear() { keys<1>(); }
extern "C" void ev_contract_keys_quadratic() { keys<2>(); }
extern "C" void ev_contract_keys_sample() { keys<3>(); }
extern "C" void ev_contract_keys_weights() { keys<4>(); }
extern "C" void ev_contract_interp_linear_1_1() { interp<Kernel::Linear, 1, 1>(); }
extern "C" void ev_contract_interp_linear_2_1() { interp<Kernel::Linear, 2, 1>(); }
extern "C" void ev_contract_interp_linear_1_2() { interp<Kernel::Linear, 1, 2>(); }
extern "C" void ev_contract_interp_keys_1_1() { interp<Kernel::Keys, 1, 1>(); }
extern "C" void ev_contract_interp_keys_2_1() { interp<Kernel::Keys, 2, 1>(); }
extern "C" void ev_contract_interp_keys_1_2() { interp<Kernel::Keys, 1, 2>(); }
extern "C" void ev_contract_interp_keys_2_2() { interp<Kernel::Keys, 2, 2>(); }
#ifndef EV_VERIFY
extern "C" void ev_contract_interp_keys_2_5() { interp<Kernel::Keys, 2, 5>(); }
extern "C" void ev_contract_interp_linear_2_5() { interp<Kernel::Linear, 2, 5>(); }
#endif
