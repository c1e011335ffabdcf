// gcc evaluates std::sqrt(7.0) in constant expressions, clang does not: for the extraction it is evaluated by Newton's method
// (exact to the last digit of a double)
#pragma once
#ifdef EV_VERIFY
namespace std { constexpr double ev_csqrt(double x) { double r = x; for(int i = 0; i < 60; i++) r = 0.5 * (r + x / r); return r; } }
#define sqrt ev_csqrt
#include "Interpolation.hh"
#undef sqrt
#else
#include "Interpolation.hh"
#endif
