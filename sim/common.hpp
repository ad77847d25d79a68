#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

using bytes = std::vector<uint8_t>;

// The one generator every choice is derived from.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (double)(next() >> 11) * 0x1p-53 < p; }
  double unit() { return (double)(next() >> 11) * 0x1p-53; }
  double gauss()
  {
    double t = 0;
    for (int i = 0; i < 12; i++) t += unit();
    return t - 6;
  }
  Rng fork(uint64_t salt) { return Rng(next() ^ (salt * 0xd6e8feb86659fd93ull)); }
  bytes blob(size_t n)
  {
    bytes b(n);
    for (size_t i = 0; i < n; i++) b[i] = (uint8_t)next();
    return b;
  }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
  Rng r(a ^ (b * 0x9e3779b97f4a7c15ull) ^ (b >> 7));
  r.next();
  return r.next();
}

struct Fnv {
  uint64_t h = 1469598103934665603ull;
  void add(const void* p, size_t n)
  {
    auto b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  }
  void u64(uint64_t v) { add(&v, 8); }
  void str(const std::string& s) { u64(s.size()); add(s.data(), s.size()); }
  void buf(const bytes& b) { u64(b.size()); add(b.data(), b.size()); }
};
inline uint64_t hash_bytes(const bytes& b) { Fnv f; f.buf(b); return f.h; }
inline uint64_t hash_str(const std::string& b) { Fnv f; f.str(b); return f.h; }

inline std::string hex(const uint8_t* p, size_t n)
{
  static const char* d = "0123456789abcdef";
  std::string s;
  s.reserve(2 * n);
  for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  return s;
}
inline std::string hex(const bytes& b) { return hex(b.data(), b.size()); }
inline bytes unhex(const std::string& s)
{
  bytes b;
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)(v(s[i]) * 16 + v(s[i + 1])));
  return b;
}

// flat binary writer / reader for requests and replies
struct Wr {
  bytes b;
  void raw(const void* p, size_t n) { b.insert(b.end(), (const uint8_t*)p, (const uint8_t*)p + n); }
  void u64(uint64_t v) { raw(&v, 8); }
  void i64(int64_t v) { raw(&v, 8); }
  void f64(double v) { raw(&v, 8); }
  void buf(const bytes& v) { u64(v.size()); raw(v.data(), v.size()); }
  void str(const std::string& v) { u64(v.size()); raw(v.data(), v.size()); }
};
struct Rd {
  const uint8_t* p;
  size_t n, o = 0;
  bool bad = false;
  void raw(void* d, size_t k)
  {
    if (o + k > n) { bad = true; memset(d, 0, k); return; }
    memcpy(d, p + o, k);
    o += k;
  }
  uint64_t u64() { uint64_t v; raw(&v, 8); return v; }
  int64_t i64() { int64_t v; raw(&v, 8); return v; }
  double f64() { double v; raw(&v, 8); return v; }
  bytes buf() { size_t k = u64(); if (bad || o + k > n) { bad = true; return {}; } bytes v(p + o, p + o + k); o += k; return v; }
  std::string str() { bytes v = buf(); return std::string(v.begin(), v.end()); }
};

// ------------------------------------------------------------------ requests

// What the entropy source answers during one operation.
struct Entropy {
  uint64_t seed = 0;              // word i = mix(seed, i) ...
  uint64_t mode = 0;              // 0 healthy, 1 every word = stuck value
  uint64_t stuck = 0;
  int64_t fail_open = -1;         // construction number that fails (-1: none)
  int64_t fail_word = -1;         // word index from which on reading fails
  int64_t fail_count = 1;         // how many reads fail
  uint64_t fail_kind = 0;         // exception type
  int64_t flip_word = -1;         // word index with one bit flipped ...
  uint64_t flip_mask = 0;         // ... by this mask
};
// What the generator delivers during one operation (overrides SHAKE256 output).
struct Steer {
  bytes prefix;                   // delivered first
  uint64_t pat_len = 0;           // then pat repeated for so many bytes
  bytes pat;
  uint64_t tail = 0;              // then: 0 natural XOF bytes, 1 bytes from tail_seed
  uint64_t tail_seed = 0;
  uint64_t record = 0;            // return the delivered bytes
  uint64_t stop_at = 0;           // the read that reaches this position throws (0: never)
};
struct Ambient {
  uint64_t poison = 0;            // stack/heap/outbuf garbage seed
  uint64_t place = 0;             // 0 canaries around, 1 flush to end guard page, 2 flush to start guard page
  int64_t clock_skew = 0;         // ns added to the simulated clock
  int64_t clock_rate = 1;         // ns per edge
};
// A message that exists as a sparse mapping: zeros, except its first 4 KiB, its
// last 300 bytes and 256 bytes at every multiple of 64 MiB; one byte changed at alter_at.
struct HugeMsg {
  uint64_t len = 0, seed = 0, alter_at = ~0ull, alter_by = 1;
  uint8_t* map() const;
  void unmap(uint8_t* p) const;
};
enum Fn : uint64_t {
  FN_NONE, FN_KEYGEN, FN_KEYGEN_MAT, FN_NTRU_GEN, FN_SIGN_SK, FN_LOAD, FN_SIGN_BT, FN_VERIFY, FN_LOAD_PK, FN_VERIFY_H,
  FN_DEC_PK, FN_ENC_PK, FN_DEC_SK, FN_ENC_SK, FN_DEC_SIG, FN_ENC_SIG, FN_RNG_NEW, FN_RNG_READ, FN_SZ, FN_SZ_ARR,
  FN_RECOMP_G, FN_LOAD_RAW
};
struct Req {
  uint64_t fn = FN_NONE;
  int64_t n = 512;
  int64_t slot = 0;               // key / rng slot
  int64_t rslot = 0;
  int64_t a = 0;                  // misc
  int64_t b = 0;                  // misc
  HugeMsg huge;                   // stands for input 1 if it has a length
  double d[3] = { 0, 0, 0 };
  bytes in[4];
  Entropy ent;
  Steer st;
  Ambient amb;
  uint64_t budget = 0;            // edges; 0: default
  uint64_t crash_edge = 0;        // die at this edge; 0: never
  int64_t alloc_fail = -1;        // heap allocation that fails (-1: none) ...
  int64_t alloc_count = 1;        // ... and how many from there on
  uint64_t alloc_own = 0;         // counting only allocations that libgmp didn't make
  uint64_t track = 0;             // report what the operations of this process still hold
  void put(Wr& w) const;
  void get(Rd& r);
};
enum Status : uint64_t { ST_OK, ST_EXC, ST_HANG, ST_CRASH_INJ, ST_SIGNAL, ST_ASAN, ST_EXIT, ST_INFRA };
struct Rsp {
  uint64_t status = ST_INFRA;
  int64_t ret = 0, ret2 = 0;
  bytes out[5];
  std::string what;
  uint64_t edges = 0, words = 0, opens = 0, clock_reads = 0, seeds = 0;
  bytes stream;
  uint64_t stream_len = 0;
  uint64_t out_touched = 0;       // some output buffer differs from its poison fill
  uint64_t canary_bad = 0;        // bytes outside a buffer were written
  uint64_t input_bad = 0;         // an input was modified
  uint64_t fail_fired = 0, flip_fired = 0, stop_fired = 0;
  uint64_t live_bytes = 0, live_blocks = 0, live_devices = 0; // held after the call (track)
  uint64_t allocs = 0, allocs_own = 0, alloc_fired = 0; // heap allocations made and refused (not part of what a caller observes)
  bytes seed;                     // last seed absorbed by a generator
  void put(Wr& w) const;
  void get(Rd& r);
  uint64_t digest() const;        // everything a caller can observe, plus consumption
};
// explicit schedule of a concurrent block: run thread t for so many edges
struct Seg { uint64_t t, edges; };
struct ParReq {
  std::vector<std::vector<Req>> th;
  std::vector<Seg> segs;          // explicit prefix of the schedule (replay)
  uint64_t mode = 0;              // 0 explicit only (then round robin to the end), 1 random quanta, 2 targeted
  uint64_t seed = 0;
  uint64_t mean = 1000;           // mean quantum for mode 1
  std::vector<Seg> targets;       // mode 2: (thread, guard id << 24 | hit number)
  void put(Wr& w) const;
  void get(Rd& r);
};
struct ParRsp {
  std::vector<std::vector<Rsp>> th;
  std::vector<Seg> segs;
  uint64_t switches = 0, site_hash = 0, blocked = 0;
  void put(Wr& w) const;
  void get(Rd& r);
};
