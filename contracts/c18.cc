#include "loops_contract.hh"
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
// The numpy file format, version 1.0: the exported bytes are parsed by an independent reader.
#ifndef EV_VERIFY
namespace {
  template <std::size_t D, std::size_t V> void npy(std::size_t lo, std::size_t hi, bool wide = false) {
    using A = NDVecArray<float, D, V>;
    Vector<std::size_t, D> s; std::size_t n = V;
    for(std::size_t k = 0; k < D; k++) { s[k] = wide ? 1 : ev_nat("shape", lo, hi); }
    if(wide) { s[D - 1] = (10000 / V) * ev_nat("blocks", 0, 3) + ev_nat("rest", 0, 3); if(D > 1) s[0] = ev_nat("outer", 1, 2); ev_assume(s[D - 1] > 0); }
    for(std::size_t k = 0; k < D; k++) n *= s[k];
    A a(s); ev_havoc(&*a.data(), n * 4, "a");
    std::size_t special = ev_nat("special", 0, 3);
    if(n > 0 && special) { std::uint32_t u = special == 1 ? 0x7fc12345u : special == 2 ? 0x80000000u : 0xff800000u; std::memcpy(&*a.data() + (n * 7919) % n, &u, 4); std::memcpy(&*a.data() + n / 2, &u, 4); }
    auto* st = ev_stream();
    ev_cover("reached");
    stor::Traits<A>::serialize_to_numpy(*st, a);
    st->seekg(0, std::ios::end); std::size_t len = (std::size_t)st->tellg(); st->seekg(0);
    std::string b(len, 0); st->read(b.data(), len); ev_check(st->good(), "readable");
    auto byte = [&](std::size_t i) { ev_check(i < b.size(), "the file is long enough"); return (unsigned)(unsigned char)b[i]; };
    const unsigned magic[8] = {0x93, 'N', 'U', 'M', 'P', 'Y', 1, 0};
    for(std::size_t i = 0; i < 8; i++) ev_check(byte(i) == magic[i], "magic string and version 1.0");
    std::size_t hl = byte(8) + 256 * byte(9);
    ev_check((10 + hl) % 64 == 0, "the data starts at a multiple of 64");
    byte(10 + hl - 1);
    std::string h = b.substr(10, hl);
    ev_check(h.back() == '\n', "the header ends in a newline");
    // the header is a Python dictionary literal
    std::size_t p = 0; auto ws = [&] { while(p < h.size() && h[p] == ' ') p++; };
    auto eat = [&](char c) { ws(); ev_check(p < h.size() && h[p] == c, "the header is a dictionary literal"); p++; };
    auto str = [&] { ws(); eat('\''); std::string r; while(p < h.size() && h[p] != '\'') r.push_back(h[p++]); eat('\''); return r; };
    eat('{'); std::set<std::string> keys;
    while(true) {
      ws(); if(h[p] == '}') break;
      std::string k = str(); ev_check(keys.insert(k).second, "each key once"); eat(':'); ws();
      if(k == "descr") ev_check(str() == ">f4", "big-endian 4-byte floats");
      else if(k == "fortran_order") { ev_check(h.compare(p, 5, "False") == 0, "C order"); p += 5; }
      else if(k == "shape") {
        eat('('); std::vector<std::size_t> sh;
        while(true) { ws(); if(h[p] == ')') break; std::size_t v = 0, d = 0; while(p < h.size() && h[p] >= '0' && h[p] <= '9') { v = v * 10 + (h[p] - '0'); p++; d++; } ev_check(d > 0, "a shape of numbers"); sh.push_back(v); ws(); if(h[p] != ',') break; p++; }
        eat(')');
        ev_check(sh.size() == D + 1, "shape: array dimensions and vector dimension");
        for(std::size_t k = 0; k < D; k++) ev_check(sh[k] == s[k], "shape: array dimensions and vector dimension");
        ev_check(sh[D] == V, "shape: array dimensions and vector dimension");
      } else ev_check(false, "no other key");
      ws(); if(h[p] != ',') break; p++;
    }
    eat('}'); for(; p + 1 < h.size(); p++) ev_check(h[p] == ' ', "padded with spaces");
    ev_check(keys.size() == 3, "all three keys");
    ev_check(len == 10 + hl + 4 * n, "exactly the data behind the header");
    // row-major order, read through the public accessor
    Vector<std::size_t, D> i(0u); std::size_t q = 10 + hl;
    if(n > 0) while(true) {
      for(std::size_t v = 0; v < V; v++) { std::uint32_t u = ev::bits((float)a[i][v]); for(int k = 0; k < 4; k++) ev_check(byte(q++) == ((u >> (24 - 8 * k)) & 255), "the elements in row-major order, bit for bit"); }
      std::size_t k = D; while(k > 0 && ++i[k - 1] == s[k - 1]) { i[k - 1] = 0; k--; } if(k == 0) break;
    }
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
C(npy_1_1, npy<1, 1>(0, 40)) C(npy_1_2, npy<1, 2>(0, 20)) C(npy_2_1, npy<2, 1>(0, 12)) C(npy_2_2, npy<2, 2>(0, 8)) C(npy_3_2, npy<3, 2>(0, 5)) C(npy_3_3, npy<3, 3>(0, 5)) C(npy_4_1, npy<4, 1>(0, 4)) C(npy_6_2, npy<6, 2>(1, 2)) C(npy_9_1, npy<9, 1>(1, 2))
C(long_1_1, npy<1, 1>(0, 0, true)) C(long_2_2, npy<2, 2>(0, 0, true)) C(long_3_3, npy<3, 3>(0, 0, true))
#endif
