// Executable reference model of Falcon-512 / Falcon-1024.  Written from the
// specification only; it shares no code with /repo.  Slow and simple on purpose:
// schoolbook multiplication, bit-by-bit codecs, long double transforms.
#pragma once
#include <complex>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ref {

using bytes = std::vector<uint8_t>;
using ivec = std::vector<int32_t>;
using real = long double;
struct cplx { real re, im; };
using cvec = std::vector<cplx>;

constexpr int Q = 12289;

struct Params {
  int n, logn;
  size_t pklen, sklen, siglen;
  int fgbits;
  int64_t beta2;
  double sigma, sigmin;
};
const Params& P(int n);

struct Span {
  const uint8_t* p;
  size_t n;
  Span(const bytes& b) : p(b.data()), n(b.size()) {}
  Span(const uint8_t* q, size_t k) : p(q), n(k) {}
};
struct Shake256 {
  uint64_t a[25] = {};
  unsigned pos = 0;
  bool sq = false;
  void absorb(const uint8_t* p, size_t n);
  void squeeze(uint8_t* p, size_t n);
};

ivec hash_to_point(int n, const uint8_t* salt, Span msg);

// ---- codecs.  Bit fields of keys are packed least significant bit first (the
// format this library has always written; see DESIGN.md, known finding).
bytes encode_pk(int n, const ivec& h);
bool decode_pk(int n, const bytes& b, ivec& h);             // strict
bytes encode_sk(int n, const ivec& f, const ivec& g, const ivec& F);
enum SkDecode { SK_BAD = 0, SK_OK = 1, SK_MINVAL = 2 };      // MINVAL: -2^(b-1) present
SkDecode decode_sk(int n, const bytes& b, ivec& f, ivec& g, ivec& F);
size_t compressed_bits(const ivec& s);                       // bits needed
bool compress(int n, const ivec& s, bytes& body);            // body = siglen-41 bytes
bool decompress(int n, const uint8_t* body, ivec& s);        // strict
bytes make_sig(int n, const uint8_t* salt, const bytes& body);

// ---- Z_q[x]/(x^n+1)
ivec mulq(const ivec& a, const ivec& b);                     // canonical result
bool invq(const ivec& a, ivec& inv);                         // false if not invertible
ivec normq(const ivec& a);
std::vector<int64_t> mulz(const ivec& a, const ivec& b);
int centre(int v);                                           // [0,q) -> [-6144,6144]

struct VInfo {
  bool pk_ok = false, hdr_ok = false, sig_ok = false;
  int64_t norm = -1;
  ivec s1, s2;
};
bool verify_h(int n, const ivec& h, Span msg, const bytes& sig, VInfo* vi = nullptr);
bool verify(int n, const bytes& pk, Span msg, const bytes& sig, VInfo* vi = nullptr);

// ---- real arithmetic
void fft(cvec& a);
void ifft(cvec& a);
cvec to_fft(const ivec& a);

bool ntru_exact(const ivec& f, const ivec& g, const ivec& F, const ivec& G);
bool recompute_G(const ivec& f, const ivec& g, const ivec& F, ivec& G); // exact or false
real gs_norm(const ivec& f, const ivec& g);                   // squared
real gs_bound();                                              // 1.17^2 q

struct Tree {
  int n;
  cvec l;
  std::vector<Tree> kids; // 2 for n >= 2
  real leaf = 0;          // sigma / sqrt(d) for n == 1
};
struct Key {
  int n = 0;
  ivec f, g, F, G, h;
  bool have_tree = false;
  cvec ff, gf, Ff, Gf;
  Tree T;
};
void build_tree(Key& k);

// ---- integer sampler
struct Stream {
  const uint8_t* p = nullptr;
  size_t n = 0, pos = 0;
  bool under = false; // ran out of bytes
  uint8_t get() { if (pos >= n) { under = true; return 0; } return p[pos++]; }
};
struct SzInfo {
  bool ambiguous = false; // decision closer than rounding error
  uint64_t iters = 0;
  int max_cmp = 0; // most comparison bytes used
  std::vector<size_t>* starts = nullptr; // stream position of every iteration
};
// be: the nine table bytes come most significant byte first
int32_t samplerz(real mu, real sigma, real sigmin, Stream& s, SzInfo& info, real mu_err = 1e-15L, bool be = false);
// base sampler table value: z0 for a 72-bit little-endian word
int base_z0(const uint8_t* nine, bool be);
unsigned __int128 rcdt(int i);
// threshold of the lazy comparison for (z0, b) at this centre and deviation
uint64_t ber_threshold(real mu, real sigma, real sigmin, int z0, int b, real* x_out = nullptr);

// how far a double computation of that threshold may be off
uint64_t ber_error(uint64_t thr, real sigma, int z0, real mu_err);

struct SignInfo {
  bool under = false, ambiguous = false, norm_edge = false;
  int attempts = 0, too_long = 0, no_fit = 0;
  uint64_t sampler_iters = 0;
  int64_t norm = 0;
  size_t used = 0;
  size_t bits = 0;
  int max_abs_s2 = 0;
};
// The specification's Sign on the byte stream.  max_attempts bounds work.
bool sign(Key& k, Span msg, const bytes& stream, bytes& sig, SignInfo& info, int max_attempts = 64);

// Candidate (f, g) pair of key generation read from the stream at its position.
bool gen_pair(int n, Stream& s, ivec& f, ivec& g, bool& ambiguous);

// ffSampling driven by a callback: pick(mu_real, mu_shift, sigma) -> z
using Pick = std::function<int32_t(real, real, real)>;
// Runs ffSampling for target point c (hash) with the centre shifted so that the
// resulting (s1, s2) is displaced by (e1, e2).  Returns s1, s2 for the real target.
void ff_steer(Key& k, const ivec& c, const std::vector<real>& e1, const std::vector<real>& e2,
              const Pick& pick, ivec& s1, ivec& s2);
}
