// ev.hh: the contract language of the eisvc verifier.
//
// A contract harness is a function `ev_contract_<name>` that states the precondition (ev_nat/ev_int ranges, ev_assume),
// calls the real code of /repo, and states the postcondition (ev_check).  Compiled with EV_VERIFY it is the input of the
// deductive verifier (the ev_* functions are uninterpreted primitives).  Compiled natively (evn.hh) the same file is an
// executable contract: used to replay counter-models against the real code and for bounded exhaustive search.
#pragma once
#include <cstddef>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <numeric>
#include <execution>
#include <vector>
#include <array>
#include <map>
#include <string>
#include <memory>
#include <span>
#include <format>
#include <stdexcept>
#include <functional>
#include <limits>
#include <cmath>

#ifdef EV_VERIFY
extern "C" {
  std::uint64_t ev_nat(const char* name, std::uint64_t lo, std::uint64_t hi);
  std::int64_t ev_int(const char* name, std::int64_t lo, std::int64_t hi);
  bool ev_bool(const char* name);
  double ev_real(const char* name);
  void ev_assume(bool);
  void ev_check(bool, const char* label);
  void ev_cover(const char* label);
  bool ev_any_bool();
  std::uint64_t ev_any();
  void ev_havoc(void* p, std::size_t bytes, const char* name);
  void ev_zero(void* p, std::size_t bytes, std::size_t elem);
  void ev_fill(void* dst, std::size_t count, std::size_t elem, const void* val);
  void ev_copy(void* dst, const void* src, std::size_t bytes);
  bool ev_concrete(std::size_t n);
  void ev_witness(const void* p, std::size_t bytes);
  void ev_witness_src(const void* p);
  void ev_throws_if(bool);
  void ev_unroll(std::size_t n);
  void ev_real_mode();
  bool ev_same_object(const void*, const void*);
  std::size_t ev_byte_offset(const void*);
  void ev_note(const char*);
  void ev_counter(std::uint64_t*);
  void ev_replace(const char*, void*);
  void ev_replace_cb(const char*, void*);
  std::iostream* ev_stream();
  void ev_stream_start(std::iostream*, std::size_t pos);
  void ev_stream_file(std::iostream*, std::size_t size, std::size_t pos);
  void ev_stream_at(std::iostream*, std::size_t size, std::size_t pos);
  void ev_stream_refuse(std::iostream*, bool);
  std::size_t ev_stream_size(std::iostream*);
  void ev_stream_rewind(std::iostream*, std::size_t pos);
  std::size_t ev_stream_tellg(std::iostream*);
  std::size_t ev_stream_tellp(std::iostream*);
  unsigned ev_stream_byte(std::iostream*, std::size_t pos);
}

// Contracts of the standard algorithms with an execution policy: they do what the C++ standard says, in any order.
// (more specialised than the library templates, so overload resolution picks them)
namespace std {
  using ev_pol = const __pstl::execution::v1::unsequenced_policy&;
  template <class It> auto ev_addr(It it) { return std::to_address(it); }

  template <class It, class N, class V> It fill_n(ev_pol, It first, N n_, const V& v) {
    using E = typename iterator_traits<It>::value_type;
    size_t n = (size_t)n_;
    E val = v;
    if(ev_concrete(n)) { for(size_t i = 0; i < n; i++) { first[i] = val; } }
    else ev_fill((void*)ev_addr(first), n, sizeof(E), &val);
    return first + n;
  }
  template <class It, class V> void fill(ev_pol p, It first, It last, const V& v) { fill_n(p, first, (size_t)(last - first), v); }
  template <class It, class N, class Out> Out copy_n(ev_pol, It first, N n_, Out out) {
    using E = typename iterator_traits<Out>::value_type;
    size_t n = (size_t)n_;
    if(ev_concrete(n)) { for(size_t i = 0; i < n; i++) { out[i] = first[i]; } }
    else ev_copy((void*)ev_addr(out), (const void*)ev_addr(first), n * sizeof(E));
    return out + n;
  }
  template <class It, class Out> Out copy(ev_pol p, It first, It last, Out out) { return copy_n(p, first, (size_t)(last - first), out); }
  template <class It, class Out, class Fn> Out transform(ev_pol, It first, It last, Out out, Fn f) {
    for(; first != last; ++first, ++out) { *out = f(*first); }
    return out;
  }
  template <class It, class It2, class Out, class Fn> Out transform(ev_pol, It first, It last, It2 first2, Out out, Fn f) {
    for(; first != last; ++first, ++first2, ++out) { *out = f(*first, *first2); }
    return out;
  }
}
namespace evl { inline const float* cell = nullptr; }   // witness element of all_of
namespace std {
  // true: the predicate holds for the witness element (if it lies in the range); false: it fails for some element of the range
  template <class It, class Pred> bool all_of(ev_pol, It first, It last, Pred p) {
    std::size_t n = (std::size_t)(last - first);
    auto* q = ev_addr(first);
    if(ev_any_bool()) {
      if(evl::cell != nullptr && ev_same_object(evl::cell, q)) { std::ptrdiff_t j = evl::cell - q; if(0 <= j) if((std::size_t)j < n) ev_assume(p(q[j])); }
      return true;
    }
    std::size_t j = ev_any(); ev_assume(j < n); ev_assume(!p(q[j]));
    return false;
  }
}
#else
#include "evn.hh"
#endif

namespace ev {
#ifdef EV_VERIFY
  inline bool separate(const void* p, const void* q) { return !ev_same_object(p, q); }
#else
  inline bool separate(const void* p, const void* q) { return p != q; }
#endif
  inline std::uint32_t bits(float f) { std::uint32_t u; std::memcpy(&u, &f, 4); return u; }
  inline std::uint64_t bits(double f) { std::uint64_t u; std::memcpy(&u, &f, 8); return u; }
}
#ifdef EV_VERIFY
#define EV_BIG (1ull << 40)
#else
#define EV_BIG 24
#endif
