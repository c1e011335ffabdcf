// evn.hh: native semantics of the contract language: executable contracts.
//   prog list
//   prog <contract> search <seconds> <seed> <failfile>     bounded exhaustive enumeration, then random sampling
//   prog <contract> replay <file>                          run once with the given inputs ("name value" lines)
// exit 0: no violation; exit 1: violation (inputs written to <failfile>); exit 3: precondition not met (replay)
#pragma once
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <set>
#include <sstream>
#include <unistd.h>
#include <sys/time.h>
#include <filesystem>
#include <unordered_set>
#include <dlfcn.h>

namespace evn {
  struct Discard {}; struct Expected {};
  struct Choice { std::string name; std::int64_t val, lo, hi; };
  enum Mode { ENUM, RANDOM, REPLAY };
  inline Mode mode = ENUM;
  inline std::vector<Choice> cur;               // choices of this run
  inline std::vector<Choice> prefix;            // ENUM: forced prefix
  inline std::map<std::string, std::int64_t> given; // REPLAY
  inline std::map<std::string, int> names;
  inline std::int64_t B = 1;
  inline std::mt19937_64 rng;
  inline bool throws_ok = false, reached = false;
  inline std::string failfile, contract, scratch;
  inline std::map<std::string, long> covers;
  inline long evaluated = 0, discarded = 0, checks = 0, expected_throws = 0;
  inline std::unordered_set<std::size_t> distinct;
  inline volatile sig_atomic_t in_run = 0;

  inline void report(const char* what) {
    if(failfile.size()) {
      FILE* f = std::fopen(failfile.c_str(), "w");
      if(f) {
        std::fprintf(f, "# contract %s\n# violated: %s\n", contract.c_str(), what);
        for(auto& c : cur) std::fprintf(f, "%s %lld\n", c.name.c_str(), (long long)c.val);
        std::fclose(f);
      }
    }
    std::fprintf(stderr, "EVFAIL %s: %s\n  inputs:", contract.c_str(), what);
    for(auto& c : cur) std::fprintf(stderr, " %s=%lld", c.name.c_str(), (long long)c.val);
    std::fprintf(stderr, "\n"); std::fflush(stderr);
  }
  [[noreturn]] inline void cleanup_exit(int rc) {
    if(scratch.size()) { std::error_code ec; std::filesystem::remove_all(scratch, ec); }
    _exit(rc);
  }
  [[noreturn]] inline void fail(const std::string& what) { report(what.c_str()); cleanup_exit(1); }
  inline void on_signal(int s) {
    static volatile sig_atomic_t once = 0; if(once) _exit(1); once = 1;
    report(s == SIGALRM || s == SIGVTALRM ? "the call does not terminate (30 s of CPU time)" : s == SIGABRT ? "abort" : s == SIGSEGV ? "segmentation fault" : "fatal signal");
    cleanup_exit(1);
  }
  inline std::int64_t pick(const char* nm, std::int64_t lo, std::int64_t hi) {
    std::string name = nm; int n = names[name]++; if(n) name += "#" + std::to_string(n);
    std::int64_t v;
    if(hi < lo) throw Discard{};
    if(mode == REPLAY) {
      auto it = given.find(name); v = it == given.end() ? lo : it->second;
      if(v < lo || v > hi) throw Discard{};
      cur.push_back({name, v, lo, hi});
      return v;
    }
    std::int64_t h = (hi - lo > B) ? lo + B : hi;
    if(mode == ENUM) {
      std::size_t i = cur.size();
      if(i < prefix.size() && prefix[i].name == name) { v = prefix[i].val; prefix[i].hi = h; }
      else { prefix.resize(i); v = lo; prefix.push_back({name, v, lo, h}); }
    } else {
      std::uint64_t r = rng() % 100;
      if(r < 20) v = lo;
      else if(r < 30 && hi - lo <= 4 * B) v = hi;
      else if(r < 60) v = lo + (std::int64_t)(rng() % (std::uint64_t)(std::min<std::int64_t>(h - lo, 3) + 1));
      else v = lo + (std::int64_t)(rng() % (std::uint64_t)(h - lo + 1));
    }
    cur.push_back({name, v, lo, hi});
    return v;
  }
  inline const char* tmpdir() {     // scratch directory of this run of the program (created on demand, removed at exit)
    if(scratch.empty()) {
      const char* t = std::getenv("TMPDIR"); std::string p = std::string(t ? t : "/tmp") + "/evn.XXXXXX";
      if(!mkdtemp(p.data())) { perror("mkdtemp"); _exit(2); }
      scratch = p;
    }
    return scratch.c_str();
  }
}
extern "C" {
  inline std::uint64_t ev_nat(const char* n, std::uint64_t lo, std::uint64_t hi) { return (std::uint64_t)evn::pick(n, (std::int64_t)lo, (std::int64_t)std::min<std::uint64_t>(hi, 1ull << 62)); }
  inline std::int64_t ev_int(const char* n, std::int64_t lo, std::int64_t hi) {
    // small absolute values first
    std::int64_t c = lo > 0 ? lo : hi < 0 ? hi : 0;
    if(evn::mode == evn::REPLAY) return evn::pick(n, lo, hi);
    std::int64_t l = std::max(lo, c - evn::B), h = std::min(hi, c + evn::B);
    auto b = evn::B; evn::B = h - l; auto v = evn::pick(n, l, h); evn::B = b; return v;
  }
  inline bool ev_bool(const char* n) { return evn::pick(n, 0, 1); }
  inline void ev_assume(bool b) { if(!b) throw evn::Discard{}; }
  inline void ev_cover(const char* l) { evn::covers[l]++; }
  inline void ev_check(bool b, const char* l) { evn::checks++; if(!b) evn::fail(l); }
  inline void ev_throws_if(bool b) { evn::throws_ok = b; }
  inline void ev_unroll(std::size_t) {}
  inline void ev_real_mode() {}
  inline void ev_note(const char*) {}
  inline void ev_counter(std::uint64_t*) {}
  inline void ev_witness(const void*, std::size_t) {}
  inline bool ev_same_object(const void*, const void*) { return true; }
  inline std::uint64_t ev_any() { return 0; }
  inline bool ev_concrete(std::size_t) { return true; }
  inline double ev_real(const char* n) {   // dyadic rationals: exact in float arithmetic
    std::int64_t k = ev_int(n, -(1 << 12), 1 << 12); return (double)k / 8.0;
  }
  inline void ev_havoc(void* p, std::size_t bytes, const char* n) {
    std::uint64_t seed = (evn::mode == evn::REPLAY || evn::mode == evn::RANDOM) ? (std::uint64_t)evn::pick((std::string("contents:") + n).c_str(), 0, 1ll << 30) : (std::uint64_t)evn::pick((std::string("contents:") + n).c_str(), 0, 1);
    std::mt19937_64 g(seed * 7919 + 17);
    unsigned char* c = (unsigned char*)p;
    std::uint64_t style = g() % 4;
    for(std::size_t i = 0; i < bytes; ) {
      if(i + 4 <= bytes && ((std::uintptr_t)(c + i)) % 4 == 0) {
        std::uint64_t r = g() % 8; float f = 0; std::uint32_t u;
        if(style == 0 ? r < 6 : style == 1 ? r < 3 : style == 2 ? r < 1 : false) f = 0;
        else f = (float)(1 + (g() % 4096)) / 16.0f * ((g() & 1) ? 1 : -1);
        std::memcpy(&u, &f, 4); std::memcpy(c + i, &u, 4); i += 4;
      } else c[i++] = (unsigned char)g();
    }
  }
  inline void ev_havoc_bytes(void* p, std::size_t bytes, const char* n) {
    std::mt19937_64 g((std::uint64_t)evn::pick((std::string("contents:") + n).c_str(), 0, 1ll << 30));
    for(std::size_t i = 0; i < bytes; i++) ((unsigned char*)p)[i] = (unsigned char)g();
  }
  inline void ev_zero(void* p, std::size_t bytes, std::size_t) { std::memset(p, 0, bytes); }
  // assert() of the code under contract is an obligation
  void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
    evn::fail(std::string("assert(") + e + ") at " + f + ":" + std::to_string(l));
  }
  void __asan_on_error() { evn::report("memory error (AddressSanitizer)"); }
}

// ---- streams: the real std::stringstream -----------------------------------------------------------------
struct evn_stream { std::stringstream s; };
inline std::iostream* ev_stream() { static thread_local std::unique_ptr<std::stringstream> keep; keep = std::make_unique<std::stringstream>(std::ios::in | std::ios::out | std::ios::binary); return keep.get(); }
inline void ev_stream_start(std::iostream* s, std::size_t p) { for(std::size_t i = 0; i < p; i++) s->put((char)(i * 37 + 11)); s->seekp((std::streamoff)p); s->seekg((std::streamoff)p); }
inline void ev_stream_rewind(std::iostream* s, std::size_t p) { s->seekg((std::streamoff)p); }
inline std::size_t ev_stream_tellg(std::iostream* s) { return s->good() ? (std::size_t)s->tellg() : std::size_t(-1); }
inline std::size_t ev_stream_tellp(std::iostream* s) { return (std::size_t)s->tellp(); }
inline unsigned ev_stream_byte(std::iostream* s, std::size_t p) { auto g = s->tellg(); s->seekg((std::streamoff)p); int c = s->get(); s->clear(); s->seekg(g); return (unsigned)c; }

namespace evn {
  using Fn = void (*)();
  inline Fn find(const char* name) { return (Fn)dlsym(RTLD_DEFAULT, name); }
  inline std::streambuf* real_cout;
  struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
  inline int once(Fn f) {    // 0 ok, 3 discarded
    cur.clear(); names.clear(); throws_ok = false;
    struct itimerval tv = {{0, 0}, {30, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    try { f(); }
    catch(Discard&) { discarded++; return 3; }
    catch(std::exception& e) { if(throws_ok) { expected_throws++; } else fail(std::string("unexpected exception: ") + e.what()); }
    catch(...) { if(throws_ok) expected_throws++; else fail("unexpected exception"); }
    evaluated++;
    if(distinct.size() < 2000000) {
      std::size_t h = 1469598103934665603ull; for(auto& c : cur) h = (h ^ (std::size_t)c.val) * 1099511628211ull;
      distinct.insert(h);
    }
    return 0;
  }
  inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}
int main(int argc, char** argv) {
  using namespace evn;
  if(argc < 3) { std::fprintf(stderr, "usage\n"); return 2; }
  contract = argv[1];
  Fn f = find(argv[1]); if(!f) { std::fprintf(stderr, "no contract %s\n", argv[1]); return 2; }
  NullBuf nb; real_cout = std::cout.rdbuf(&nb);
  for(int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) std::signal(s, on_signal);
  std::string m = argv[2];
  if(m == "replay") {
    mode = REPLAY; B = 1ll << 61;
    std::ifstream in(argv[3]); std::string line;
    while(std::getline(in, line)) { if(line.empty() || line[0] == '#') continue; std::istringstream is(line); std::string n; long long v; 
      auto sp = line.rfind(' '); given[line.substr(0, sp)] = std::atoll(line.c_str() + sp + 1); }
    int rc = once(f);
    std::fprintf(stderr, rc ? "precondition not met\n" : "contract holds on this input\n");
    cleanup_exit(rc);
  }
  double secs = std::atof(argv[3]); std::uint64_t seed = std::strtoull(argv[4], nullptr, 10); if(argc > 5) failfile = argv[5];
  double t0 = now(); long complete = -1; long enumerated = 0; 
  rng.seed(seed);
  mode = ENUM;
  for(B = 1; B <= 6 && now() - t0 < 0.45 * secs; B++) {
    prefix.clear(); bool done = false; long n = 0; double tb = now();
    while(true) {
      if((++n & 15) == 0 && now() - t0 > 0.45 * secs) break;
      once(f); enumerated++;
      prefix.resize(std::min(prefix.size(), cur.size()));
      while(!prefix.empty() && prefix.back().val >= prefix.back().hi) prefix.pop_back();
      if(prefix.empty()) { done = true; break; }
      prefix.back().val++;
    }
    if(!done) break;
    complete = B; (void)tb;
  }
  mode = RANDOM; long randoms = 0;
  static const std::int64_t Bs[] = {1, 2, 3, 4, 5, 7, 9, 13, 20};
  while(now() - t0 < secs) { B = Bs[rng() % 9]; once(f); randoms++; }
  std::cout.rdbuf(real_cout);
  std::printf("{\"contract\":\"%s\",\"evaluated\":%ld,\"distinct\":%zu,\"discarded\":%ld,\"checks\":%ld,\"expected_throws\":%ld,\"enumerated\":%ld,\"complete_bound\":%ld,\"random\":%ld,\"covers\":{", contract.c_str(), evaluated, distinct.size(), discarded, checks, expected_throws, enumerated, complete, randoms);
  bool first = true; for(auto& [k, v] : covers) { std::printf("%s\"%s\":%ld", first ? "" : ",", k.c_str(), v); first = false; }
  std::printf("}}\n"); std::fflush(stdout);
  cleanup_exit(0);
}
