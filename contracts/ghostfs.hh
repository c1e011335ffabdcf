// Ghost file system, cache, streamer and spatial index for the contracts of the distributed array (deductive only): what their own
// contracts (C06, C07, C09, the standard library) say about them, as far as the distributed array can see it.
#pragma once
#include "ev.hh"
#include <unordered_map>
#include <filesystem>
#include <fstream>
#include <list>
#include <variant>
#include <tuple>
#include <queue>
#include <stack>
#include <chrono>
#include <optional>
#include <uuid/uuid.h>
namespace evg {
  constexpr std::size_t NONE = 0, CUR = ~0ull;
  // contents of a chunk: after step 0 (registered) further steps append slices.  An array or file holds the steps [from, to) of one chunk.
  struct Data { std::size_t tag = 0, from = 0, to = 0; bool zero = false; };
  struct File { std::size_t name; bool exists; Data d; std::size_t axis_shape[3]; };
  inline File files[2]; inline std::size_t known = 0, dir = 0;
  inline std::size_t step_axis[4];   // axis of the slices of the pending steps, by chunk
  inline std::size_t removed = 0;
}
namespace std {
  namespace evfs {
    struct path {
      size_t dir = 0, name = 0; bool chunk = false, bad = false;
      path() { } path(const char* s) { if(s[0] != 0) name = 77; } path(const string&) { name = ev_any(); ev_assume(name > 100); }
      path(const path& o) : dir(o.dir), name(o.name), chunk(o.chunk), bad(o.bad) { }
      path& operator=(const path& o) { dir = o.dir; name = o.name; chunk = o.chunk; bad = o.bad; return *this; }
      path& operator=(const string& s) { return *this = path(s); }
      path& operator+=(string_view) { if(chunk) bad = true; chunk = true; return *this; }
      bool empty() const { return name == 0 & !chunk; }
      path filename() const { path p(*this); p.dir = 0; return p; }
      path extension() const { path p; p.chunk = chunk; return p; }
      string str() const { return string(); }
      string string() const { return std::string(); }
    };
    inline bool operator!=(const path& a, const path& b) { return (a.dir != b.dir) | (a.name != b.name) | (a.chunk != b.chunk); }
    inline bool operator==(const path& a, const path& b) { return !(a != b); }
    inline bool operator!=(const path& a, string_view) { return !a.chunk; }
    inline bool operator==(const path& a, string_view) { return a.chunk; }
    inline path operator/(const path& a, const path& b) { path p(b); p.dir = a.name; return p; }
    inline path operator/(const path& a, string_view) { path p; p.name = 78; p.dir = a.name; return p; }
    inline ostream& operator<<(ostream& s, const path&) { return s; }
    inline evg::File* at(const path& p) {
      for(size_t i = 0; i < evg::known; i++) if((p.name == evg::files[i].name) & p.chunk & !p.bad & (p.dir == evg::dir)) return &evg::files[i];
      return nullptr;
    }
    inline bool exists(const path& p) { evg::File* f = at(p); return f != nullptr && f->exists; }
    inline bool remove(const path& p) { evg::File* f = at(p); if(f) f->exists = false; evg::removed++; return true; }
    inline bool remove_all(const path& p) { return remove(p); }
    inline bool create_directory(const path&) { return true; }
    inline void copy(const path&, const path&) { }
    inline void rename(const path&, const path&) { }
    inline path absolute(const path& p) { return p; }
    struct filesystem_error { };
    struct directory_entry { path p; directory_entry() { } path path_() const { return p; } operator const evfs::path&() const { return p; } const evfs::path& path() const { return p; } };
    struct directory_iterator {
      static inline directory_entry e[2]; static inline size_t n = 0; static inline size_t of = 0;
      explicit directory_iterator(const evfs::path& p) { of = p.name; }
    };
    inline directory_entry* begin(const directory_iterator&) { return directory_iterator::e; }
    inline directory_entry* end(const directory_iterator&) { return directory_iterator::e + directory_iterator::n; }
  }
  // an open file
  struct ev_file {
    evg::File* f = nullptr; bool in = false, out = false, begin = false;
    void open(const evfs::path& p, ios::openmode m) {
      f = evfs::at(p); in = (m & ios::in) != 0; out = (m & ios::out) != 0; begin = true;
      if(f) { if(out & !in) { f->exists = true; f->d = evg::Data{}; } ev_check(f->exists, "the file of the chunk is there"); }
      else ev_check(false, "only files of the chunks at hand are opened");
    }
    void seekg(streampos p, ios_base::seekdir) { ev_check(f != nullptr, "an open file"); ev_check((streamoff)p == 0, "the chunk starts at the start of its file"); begin = true; }
    void seekp(streampos p, ios_base::seekdir d) { seekg(p, d); }
    void close() { f = nullptr; }
    operator iostream&() { return *ev_stream(); }
  };
  // contract of the cache (C09), for the entries of the keys at hand; entries of other keys are outside the footprint
  template <class K, class P> struct ev_cache {
    P* e[3]; size_t key[2]; bool in[2]; int slot[2]; int free_ = 2; size_t count, depth;
    template <typename... A> ev_cache(size_t d, A&&...) : depth(d) { }
    int find_(size_t k) const { for(int i = 0; i < 2; i++) if(key[i] == k) return i; ev_check(false, "only the chunks at hand are looked up"); return 0; }
    bool contains(const K& k) { return in[find_(k)]; }
    bool has_free_slot() { return count < depth; }
    P& get(const K& k) { int i = find_(k); ev_check(in[i], "the chunk is in the cache"); return *e[slot[i]]; }
    P& evict_(int i) { ev_check(in[i], "the chunk is in the cache"); in[i] = false; count--; free_ = slot[i]; return *e[slot[i]]; }
    P& evict(const K& k) { return evict_(find_(k)); }
    P& evict_oldest_from_full_cache() { ev_check(count == depth, "an entry is pushed out of a full cache"); int i = ev_any_bool() ? 0 : 1; ev_assume(in[i]); return evict_(i); }
    P& insert_ref_no_overwrite(const K& k) { int i = find_(k); ev_check(!in[i], "chunks are cached once"); ev_check(count < depth, "there is room in the cache"); in[i] = true; count++; slot[i] = free_; return *e[free_]; }
    template <class D> void insert_no_overwrite(const K& k, const D& d) { insert_ref_no_overwrite(k) = d; }
    struct keys { size_t k[2]; size_t n; size_t* begin() { return k; } size_t* end() { return k + n; } };
    keys contained_elements() const { keys r; r.n = 0; for(int i = 0; i < 2; i++) if(in[i]) r.k[r.n++] = key[i]; return r; }
  };
}
