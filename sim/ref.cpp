#include "ref.hpp"
#include <cmath>
#include <cstring>
#include <map>

namespace ref {

const Params& P(int n)
{
  static const Params p512{ 512, 9, 897, 1281, 666, 6, 34034726, 165.736617183, 1.277833697 };
  static const Params p1024{ 1024, 10, 1793, 2305, 1280, 5, 70265242, 168.388571447, 1.298280334 };
  return n == 512 ? p512 : p1024;
}

// ------------------------------------------------------------------ SHAKE256
static void keccak(uint64_t* A)
{
  // rho/pi walked along the single 24-cycle; constants by LFSR
  uint8_t R = 1;
  for (int round = 0; round < 24; round++) {
    uint64_t C[5], D;
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int x = 0; x < 5; x++) {
      uint64_t c1 = C[(x + 1) % 5];
      D = C[(x + 4) % 5] ^ ((c1 << 1) | (c1 >> 63));
      for (int y = 0; y < 5; y++) A[x + 5 * y] ^= D;
    }
    int x = 1, y = 0;
    uint64_t cur = A[1];
    for (int t = 0; t < 24; t++) {
      int r = ((t + 1) * (t + 2) / 2) % 64;
      int Y = (2 * x + 3 * y) % 5;
      x = y;
      y = Y;
      uint64_t tmp = A[x + 5 * y];
      A[x + 5 * y] = r ? ((cur << r) | (cur >> (64 - r))) : cur;
      cur = tmp;
    }
    for (int yy = 0; yy < 5; yy++) {
      uint64_t row[5];
      for (int xx = 0; xx < 5; xx++) row[xx] = A[xx + 5 * yy];
      for (int xx = 0; xx < 5; xx++) A[xx + 5 * yy] = row[xx] ^ ((~row[(xx + 1) % 5]) & row[(xx + 2) % 5]);
    }
    for (int j = 0; j < 7; j++) {
      R = (uint8_t)((R << 1) ^ ((R >> 7) * 0x71));
      if (R & 2) A[0] ^= 1ull << ((1 << j) - 1);
    }
  }
}
void Shake256::absorb(const uint8_t* p, size_t n)
{
  for (size_t i = 0; i < n; i++) {
    a[pos / 8] ^= (uint64_t)p[i] << (8 * (pos % 8));
    if (++pos == 136) { keccak(a); pos = 0; }
  }
}
void Shake256::squeeze(uint8_t* p, size_t n)
{
  if (!sq) {
    a[pos / 8] ^= 0x1full << (8 * (pos % 8));
    a[16] ^= 0x80ull << 56;
    keccak(a);
    pos = 0;
    sq = true;
  }
  for (size_t i = 0; i < n; i++) {
    if (pos == 136) { keccak(a); pos = 0; }
    p[i] = (uint8_t)(a[pos / 8] >> (8 * (pos % 8)));
    pos++;
  }
}

// Inputs beyond 512 KiB are hashed as the stand-in for SHAKE256 does (stub/shake256.hpp).
ivec hash_to_point(int n, const uint8_t* salt, Span msg)
{
  Shake256 s;
  s.absorb(salt, 40);
  const size_t dense = 1u << 19, total = 40 + msg.n;
  if (total <= dense) s.absorb(msg.p, msg.n);
  else {
    s.absorb(msg.p, dense - 40);
    for (size_t mb = dense; mb < total; mb += 1u << 20) {
      const size_t w = (mb + (1u << 20) - 1) & ~(size_t)((1u << 20) - 1);
      if (w < total) s.absorb(msg.p + (w - 40), std::min<size_t>(1024, total - w));
    }
    s.absorb(msg.p + msg.n - 256, 256);
    uint8_t l[8];
    for (int i = 0; i < 8; i++) l[i] = (uint8_t)(total >> (8 * i));
    s.absorb(l, 8);
  }
  ivec c;
  while ((int)c.size() < n) {
    uint8_t b[2];
    s.squeeze(b, 2);
    int t = b[0] * 256 + b[1];
    if (t < 5 * Q) c.push_back(t % Q);
  }
  return c;
}

// ------------------------------------------------------------------ codecs
namespace {
struct BitsLsb { // least significant bit first
  bytes out;
  size_t n = 0;
  void put(uint32_t v, int w) { for (int i = 0; i < w; i++, n++) { if (n / 8 >= out.size()) out.push_back(0); out[n / 8] |= ((v >> i) & 1) << (n % 8); } }
};
struct RdLsb {
  const uint8_t* p;
  size_t n = 0;
  uint32_t get(int w) { uint32_t v = 0; for (int i = 0; i < w; i++, n++) v |= (uint32_t)((p[n / 8] >> (n % 8)) & 1) << i; return v; }
};
}
bytes encode_pk(int n, const ivec& h)
{
  BitsLsb b;
  b.put((uint32_t)P(n).logn, 8);
  for (int v : h) b.put((uint32_t)v, 14);
  return b.out;
}
bool decode_pk(int n, const bytes& b, ivec& h)
{
  h.assign(n, 0);
  if (b.size() != P(n).pklen || b[0] != P(n).logn) return false;
  RdLsb r{ b.data() + 1 };
  bool ok = true;
  for (int i = 0; i < n; i++) { h[i] = (int)r.get(14); ok &= h[i] < Q; }
  return ok;
}
bytes encode_sk(int n, const ivec& f, const ivec& g, const ivec& F)
{
  BitsLsb b;
  b.put(0x50u | (unsigned)P(n).logn, 8);
  for (int v : f) b.put((uint32_t)v, P(n).fgbits);
  for (int v : g) b.put((uint32_t)v, P(n).fgbits);
  for (int v : F) b.put((uint32_t)v, 8);
  return b.out;
}
SkDecode decode_sk(int n, const bytes& b, ivec& f, ivec& g, ivec& F)
{
  f.assign(n, 0); g.assign(n, 0); F.assign(n, 0);
  if (b.size() != P(n).sklen || b[0] != (0x50 | P(n).logn)) return SK_BAD;
  RdLsb r{ b.data() + 1 };
  bool minv = false;
  auto rd = [&](int w) { int v = (int)r.get(w); if (v >= 1 << (w - 1)) v -= 1 << w; if (v == -(1 << (w - 1))) minv = true; return v; };
  for (auto& v : f) v = rd(P(n).fgbits);
  for (auto& v : g) v = rd(P(n).fgbits);
  for (auto& v : F) v = rd(8);
  return minv ? SK_MINVAL : SK_OK;
}
size_t compressed_bits(const ivec& s)
{
  size_t t = 0;
  for (int v : s) t += 9 + (size_t)(std::abs((long)v) >> 7);
  return t;
}
bool compress(int n, const ivec& s, bytes& body)
{
  const size_t len = P(n).siglen - 41;
  body.assign(len, 0);
  if (compressed_bits(s) > len * 8) return false;
  size_t pos = 0;
  auto put = [&](int bit) { if (bit) body[pos / 8] |= 0x80 >> (pos % 8); pos++; };
  for (int v : s) {
    int a = v < 0 ? -v : v;
    put(v < 0);
    for (int i = 6; i >= 0; i--) put((a >> i) & 1);
    for (int k = a >> 7; k > 0; k--) put(0);
    put(1);
  }
  return true;
}
bool decompress(int n, const uint8_t* body, ivec& s)
{
  const size_t nb = (P(n).siglen - 41) * 8;
  size_t pos = 0;
  s.assign(n, 0);
  auto get = [&](int& bit) { if (pos >= nb) return false; bit = (body[pos / 8] >> (7 - pos % 8)) & 1; pos++; return true; };
  for (int i = 0; i < n; i++) {
    int sg, a = 0, bit;
    if (!get(sg)) return false;
    for (int j = 0; j < 7; j++) { if (!get(bit)) return false; a = 2 * a + bit; }
    for (;;) { if (!get(bit)) return false; if (bit) break; a += 128; }
    if (sg && a == 0) return false;
    s[i] = sg ? -a : a;
  }
  int bit;
  while (get(bit)) if (bit) return false;
  return true;
}
bytes make_sig(int n, const uint8_t* salt, const bytes& body)
{
  bytes r;
  r.push_back((uint8_t)(0x30 | P(n).logn));
  r.insert(r.end(), salt, salt + 40);
  r.insert(r.end(), body.begin(), body.end());
  return r;
}

// ------------------------------------------------------------------ Z_q
ivec normq(const ivec& a)
{
  ivec r(a.size());
  for (size_t i = 0; i < a.size(); i++) { int v = a[i] % Q; r[i] = v < 0 ? v + Q : v; }
  return r;
}
std::vector<int64_t> mulz(const ivec& a, const ivec& b)
{
  const size_t n = a.size();
  std::vector<int64_t> t(2 * n, 0);
  for (size_t i = 0; i < n; i++) {
    const int64_t x = a[i];
    if (x == 0) continue;
    int64_t* o = t.data() + i;
    for (size_t j = 0; j < n; j++) o[j] += x * b[j];
  }
  std::vector<int64_t> r(n);
  for (size_t i = 0; i < n; i++) r[i] = t[i] - t[i + n];
  return r;
}
ivec mulq(const ivec& a, const ivec& b)
{
  auto t = mulz(normq(a), normq(b));
  ivec r(t.size());
  for (size_t i = 0; i < t.size(); i++) { int64_t v = t[i] % Q; r[i] = (int)(v < 0 ? v + Q : v); }
  return r;
}
static int powq(int64_t b, int e)
{
  int64_t r = 1;
  b %= Q;
  for (; e; e >>= 1) { if (e & 1) r = r * b % Q; b = b * b % Q; }
  return (int)r;
}
static const std::vector<int>& qroots(size_t n) // roots of x^n+1, [2i+1] = -[2i]
{
  static std::map<size_t, std::vector<int>> m;
  auto it = m.find(n);
  if (it != m.end()) return it->second;
  std::vector<int> r(n);
  if (n == 1) r[0] = Q - 1;
  else {
    const auto& h = qroots(n / 2);
    static std::vector<int> sq; // square roots
    if (sq.empty()) { sq.assign(Q, -1); for (int i = 0; i <= Q / 2; i++) sq[(int64_t)i * i % Q] = i; }
    for (size_t i = 0; i < n / 2; i++) { r[2 * i] = sq[h[i]]; r[2 * i + 1] = Q - sq[h[i]]; }
  }
  return m[n] = r;
}
static ivec qfft(const ivec& a)
{
  size_t n = a.size();
  if (n == 1) return a;
  ivec e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
  e = qfft(e); o = qfft(o);
  const auto& w = qroots(n);
  ivec r(n);
  for (size_t i = 0; i < n / 2; i++) {
    int64_t t = (int64_t)w[2 * i] * o[i] % Q;
    r[2 * i] = (int)((e[i] + t) % Q);
    r[2 * i + 1] = (int)((e[i] - t + Q) % Q);
  }
  return r;
}
static ivec qifft(const ivec& a)
{
  size_t n = a.size();
  if (n == 1) return a;
  const auto& w = qroots(n);
  const int64_t half = (Q + 1) / 2;
  ivec e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++) {
    e[i] = (int)((a[2 * i] + a[2 * i + 1]) * half % Q);
    int64_t d = (a[2 * i] - a[2 * i + 1] + Q) * half % Q;
    o[i] = (int)(d * powq(w[2 * i], Q - 2) % Q);
  }
  e = qifft(e); o = qifft(o);
  ivec r(n);
  for (size_t i = 0; i < n / 2; i++) { r[2 * i] = e[i]; r[2 * i + 1] = o[i]; }
  return r;
}
bool invq(const ivec& a, ivec& inv)
{
  ivec t = qfft(normq(a));
  for (auto& v : t) { if (v == 0) return false; v = powq(v, Q - 2); }
  inv = qifft(t);
  return true;
}
int centre(int v) { return v > Q / 2 ? v - Q : v; }

bool verify_h(int n, const ivec& h, Span msg, const bytes& sig, VInfo* vi)
{
  VInfo tmp;
  VInfo& V = vi ? *vi : tmp;
  if (sig.size() != P(n).siglen || sig[0] != (0x30 | P(n).logn)) return false;
  V.hdr_ok = true;
  if (!decompress(n, sig.data() + 41, V.s2)) return false;
  V.sig_ok = true;
  ivec c = hash_to_point(n, sig.data() + 1, msg);
  ivec t = mulq(V.s2, h);
  V.s1.resize(n);
  int64_t norm = 0;
  for (int i = 0; i < n; i++) {
    V.s1[i] = centre(((c[i] - t[i]) % Q + Q) % Q);
    norm += (int64_t)V.s1[i] * V.s1[i] + (int64_t)V.s2[i] * V.s2[i];
  }
  V.norm = norm;
  return norm <= P(n).beta2;
}
bool verify(int n, const bytes& pk, Span msg, const bytes& sig, VInfo* vi)
{
  ivec h;
  if (!decode_pk(n, pk, h)) return false;
  if (vi) vi->pk_ok = true;
  return verify_h(n, h, msg, sig, vi);
}

// ------------------------------------------------------------------ reals
static inline cplx mul(cplx a, cplx b) { return { a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re }; }
static inline cplx add(cplx a, cplx b) { return { a.re + b.re, a.im + b.im }; }
static inline cplx sub(cplx a, cplx b) { return { a.re - b.re, a.im - b.im }; }
static inline cplx conj(cplx a) { return { a.re, -a.im }; }
static inline cplx divc(cplx a, cplx b) { real d = b.re * b.re + b.im * b.im; cplx t = mul(a, conj(b)); return { t.re / d, t.im / d }; }

static const cvec& roots(size_t n)
{
  static std::map<size_t, cvec> m;
  auto it = m.find(n);
  if (it != m.end()) return it->second;
  // angle fractions k/(2n)*2pi: root = exp(i*pi*a/n), a odd; sqrt halves the angle
  std::function<std::vector<long>(size_t)> ang = [&](size_t s) -> std::vector<long> { // numerator over s (times pi)
    if (s == 1) return { 1 };
    auto h = ang(s / 2);
    std::vector<long> r(s);
    for (size_t i = 0; i < s / 2; i++) { r[2 * i] = h[i]; r[2 * i + 1] = h[i] + (long)s; }
    return r;
  };
  auto a = ang(n);
  cvec r(n);
  const real pi = 3.141592653589793238462643383279502884L;
  for (size_t i = 0; i < n; i++) { real t = pi * (real)a[i] / (real)n; r[i] = { cosl(t), sinl(t) }; }
  return m[n] = r;
}
static void split(const cplx* a, size_t n, cplx* e, cplx* o)
{
  const cvec& w = roots(n);
  for (size_t i = 0; i < n / 2; i++) {
    cplx s = add(a[2 * i], a[2 * i + 1]), d = sub(a[2 * i], a[2 * i + 1]);
    e[i] = { s.re / 2, s.im / 2 };
    cplx t = mul(d, conj(w[2 * i]));
    o[i] = { t.re / 2, t.im / 2 };
  }
}
static void merge(const cplx* e, const cplx* o, size_t n, cplx* a)
{
  const cvec& w = roots(n);
  for (size_t i = 0; i < n / 2; i++) {
    cplx t = mul(w[2 * i], o[i]);
    a[2 * i] = add(e[i], t);
    a[2 * i + 1] = sub(e[i], t);
  }
}
void fft(cvec& a)
{
  size_t n = a.size();
  if (n == 1) return;
  cvec e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
  fft(e); fft(o);
  merge(e.data(), o.data(), n, a.data());
}
void ifft(cvec& a)
{
  size_t n = a.size();
  if (n == 1) return;
  cvec e(n / 2), o(n / 2);
  split(a.data(), n, e.data(), o.data());
  ifft(e); ifft(o);
  for (size_t i = 0; i < n / 2; i++) { a[2 * i] = e[i]; a[2 * i + 1] = o[i]; }
}
cvec to_fft(const ivec& a)
{
  cvec r(a.size());
  for (size_t i = 0; i < a.size(); i++) r[i] = { (real)a[i], 0 };
  fft(r);
  return r;
}

bool ntru_exact(const ivec& f, const ivec& g, const ivec& F, const ivec& G)
{
  auto a = mulz(f, G), b = mulz(g, F);
  for (size_t i = 0; i < f.size(); i++) if (a[i] - b[i] != (i == 0 ? Q : 0)) return false;
  return true;
}
bool recompute_G(const ivec& f, const ivec& g, const ivec& F, ivec& G)
{
  cvec a = to_fft(f), b = to_fft(g), c = to_fft(F);
  G.assign(f.size(), 0);
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].re == 0 && a[i].im == 0) return false;
    cplx t = mul(b[i], c[i]);
    t.re += Q;
    a[i] = divc(t, a[i]);
  }
  ifft(a);
  for (size_t i = 0; i < a.size(); i++) {
    real v = roundl(a[i].re);
    if (!(fabsl(v) < 1e6L)) return false;
    G[i] = (int)v;
  }
  return ntru_exact(f, g, F, G);
}
real gs_bound() { return 1.17L * 1.17L * Q; }
real gs_norm(const ivec& f, const ivec& g)
{
  real a = 0, b = 0;
  for (int v : f) a += (real)v * v;
  for (int v : g) a += (real)v * v;
  cvec x = to_fft(f), y = to_fft(g);
  for (size_t i = 0; i < x.size(); i++)
    b += (real)Q * Q / (x[i].re * x[i].re + x[i].im * x[i].im + y[i].re * y[i].re + y[i].im * y[i].im);
  b /= (real)x.size();
  return a > b ? a : b;
}

static Tree ffldl(const cvec& g00, const cvec& g10, const cvec& g11, real sigma)
{
  Tree t;
  size_t n = g00.size();
  t.n = (int)n;
  t.l.resize(n);
  cvec d11(n);
  for (size_t i = 0; i < n; i++) {
    t.l[i] = divc(g10[i], g00[i]);
    cplx x = mul(mul(t.l[i], conj(t.l[i])), g00[i]);
    d11[i] = sub(g11[i], x);
  }
  t.kids.resize(2);
  if (n == 2) {
    // both halves of a ring element with x -> conj symmetry: the constant term
    cplx e, o;
    split(g00.data(), 2, &e, &o);
    t.kids[0].n = 1; t.kids[0].leaf = sigma / sqrtl(e.re);
    split(d11.data(), 2, &e, &o);
    t.kids[1].n = 1; t.kids[1].leaf = sigma / sqrtl(e.re);
    return t;
  }
  for (int k = 0; k < 2; k++) {
    const cvec& D = k ? d11 : g00;
    cvec e(n / 2), o(n / 2), oc(n / 2);
    split(D.data(), n, e.data(), o.data());
    for (size_t i = 0; i < n / 2; i++) oc[i] = conj(o[i]);
    t.kids[k] = ffldl(e, oc, e, sigma);
  }
  return t;
}
void build_tree(Key& k)
{
  if (k.have_tree) return;
  k.ff = to_fft(k.f); k.gf = to_fft(k.g); k.Ff = to_fft(k.F); k.Gf = to_fft(k.G);
  size_t n = k.f.size();
  cvec g00(n), g10(n), g11(n);
  for (size_t i = 0; i < n; i++) {
    // B = [[g,-f],[G,-F]]; Gram = B B*
    g00[i] = add(mul(k.gf[i], conj(k.gf[i])), mul(k.ff[i], conj(k.ff[i])));
    g10[i] = add(mul(k.Gf[i], conj(k.gf[i])), mul(k.Ff[i], conj(k.ff[i])));
    g11[i] = add(mul(k.Gf[i], conj(k.Gf[i])), mul(k.Ff[i], conj(k.Ff[i])));
  }
  k.T = ffldl(g00, g10, g11, (real)P((int)n).sigma);
  k.have_tree = true;
}

// ------------------------------------------------------------------ sampler
using u128 = unsigned __int128;
u128 rcdt(int i)
{
  // table 3.1 of the specification (reverse cumulative table), given as hi:lo
  static std::vector<u128> t;
  if (t.empty()) {
    // chi(i) = RCDT[i-1] - RCDT[i]; start from the decimal values of the spec
    static const char* dec[18] = { "3024686241123004913666", "1564742784480091954050", "636254429462080897535",
      "199560484645026482916", "47667343854657281903", "8595902006365044063", "1163297957344668388",
      "117656387352093658", "8867391802663976", "496969357462633", "20680885154299", "638331848991",
      "14602316184", "247426747", "3104126", "28824", "198", "1" };
    for (auto s : dec) { u128 v = 0; for (const char* c = s; *c; c++) v = v * 10 + (unsigned)(*c - '0'); t.push_back(v); }
  }
  return t[(size_t)i];
}
int base_z0(const uint8_t* nine, bool be)
{
  u128 u = 0;
  for (int i = 0; i < 9; i++) u |= (u128)nine[be ? 8 - i : i] << (8 * i);
  int z = 0;
  for (int i = 0; i < 18; i++) z += u < rcdt(i);
  return z;
}
static uint64_t approx_exp(real r, real ccs)
{
  static const uint64_t C[13] = { 0x00000004741183A3ull, 0x00000036548CFC06ull, 0x0000024FDCBF140Aull,
    0x0000171D939DE045ull, 0x0000D00CF58F6F84ull, 0x000680681CF796E3ull, 0x002D82D8305B0FEAull,
    0x011111110E066FD0ull, 0x0555555555070F00ull, 0x155555555581FF00ull, 0x400000000002B400ull,
    0x7FFFFFFFFFFF4800ull, 0x8000000000000000ull };
  uint64_t z = (uint64_t)floorl(9223372036854775808.0L * r);
  u128 y = C[0];
  for (int i = 1; i < 13; i++) y = (u128)C[i] - (((u128)z * y) >> 63);
  uint64_t zc = (uint64_t)floorl(9223372036854775808.0L * ccs);
  return (uint64_t)(((u128)zc * y) >> 63);
}
uint64_t ber_threshold(real mu, real sigma, real sigmin, int z0, int b, real* x_out)
{
  real r = mu - floorl(mu);
  real z = b + (2 * b - 1) * z0;
  real x = (z - r) * (z - r) / (2 * sigma * sigma) - (real)z0 * z0 / (2 * 1.8205L * 1.8205L);
  if (x < 0) x = 0;
  if (x_out) *x_out = x;
  const real ln2 = 0.693147180559945309417232121458176568L;
  real s = floorl(x / ln2);
  real rr = x - s * ln2;
  if (rr < 0) rr = 0;
  uint64_t y = approx_exp(rr, sigmin / sigma);
  uint64_t z64 = 2 * y - 1;
  int sh = s > 63 ? 63 : (int)s;
  return z64 >> sh;
}
uint64_t ber_error(uint64_t thr, real sigma, int z0, real mu_err)
{
  // error of the double computation of x, as an error of the threshold:
  // relative error of exp(-x) = |dx| + fixed point truncation
  real zz = z0 + 1.0L;
  real dx = (zz * zz + 4) * 2e-15L + (zz + 1) * mu_err / (sigma * sigma) + 1e-15L;
  real err = (real)thr * (dx * 4) + 4096.0L * powl(2, -(thr ? 63 - (int)log2l((real)thr) : 63)) + 2;
  return err > 1e19L ? (uint64_t)1e19 : (uint64_t)err;
}
int32_t samplerz(real mu, real sigma, real sigmin, Stream& st, SzInfo& info, real mu_err, bool be)
{
  real fl = floorl(mu);
  real fr = mu - fl;
  // an exact integer centre given without error is unambiguous
  if (mu_err > 0 && (fr < mu_err || 1 - fr < mu_err)) info.ambiguous = true;
  for (;;) {
    if (st.under) return 0;
    info.iters++;
    if (info.starts) info.starts->push_back(st.pos);
    uint8_t nine[9];
    for (auto& v : nine) v = st.get();
    int z0 = base_z0(nine, be);
    int b = st.get() & 1;
    real x;
    uint64_t thr = ber_threshold(mu, sigma, sigmin, z0, b, &x);
    const uint64_t e = ber_error(thr, sigma, z0, mu_err);
    // lazy comparison on thr-e, thr, thr+e must agree, both in value and length
    size_t start = st.pos;
    auto cmp = [&](uint64_t t, int& used) {
      int w = 0, i = 64;
      used = 0;
      size_t p = start;
      do {
        i -= 8;
        int v = p < st.n ? st.p[p] : 0;
        p++;
        used++;
        w = v - (int)((t >> i) & 255);
      } while (w == 0 && i > 0);
      return w < 0;
    };
    int u0, u1, u2;
    bool r0 = cmp(thr, u0);
    bool r1 = cmp(thr > e ? thr - e : 0, u1);
    bool r2 = cmp(thr > UINT64_MAX - e ? UINT64_MAX : thr + e, u2);
    if (r0 != r1 || r0 != r2 || u0 != u1 || u0 != u2) info.ambiguous = true;
    for (int k = 0; k < u0; k++) st.get();
    if (u0 > info.max_cmp) info.max_cmp = u0;
    if (st.under) return 0;
    if (r0) return (int32_t)(b + (2 * b - 1) * z0 + (long)fl);
  }
}

// ------------------------------------------------------------------ ffSampling
namespace {
template<class Leaf>
void ffs(const Tree& T, const cplx* t0, const cplx* t1, cplx* z0, cplx* z1, size_t n, const Leaf& leaf)
{
  if (n == 1) {
    z0[0] = { leaf(t0[0].re, T.leaf), 0 };
    z1[0] = { leaf(t1[0].re, T.leaf), 0 };
    return;
  }
  size_t m = n / 2;
  cvec a(m), b(m), za(m), zb(m), tt(n);
  split(t1, n, a.data(), b.data());
  ffs(T.kids[1], a.data(), b.data(), za.data(), zb.data(), m, leaf);
  merge(za.data(), zb.data(), n, z1);
  for (size_t i = 0; i < n; i++) tt[i] = add(t0[i], mul(sub(t1[i], z1[i]), T.l[i]));
  split(tt.data(), n, a.data(), b.data());
  ffs(T.kids[0], a.data(), b.data(), za.data(), zb.data(), m, leaf);
  merge(za.data(), zb.data(), n, z0);
}
// two targets walked in lockstep, same z
template<class Leaf>
void ffs2(const Tree& T, const cplx* t0, const cplx* t1, const cplx* u0, const cplx* u1, cplx* z0, cplx* z1, size_t n, const Leaf& leaf)
{
  if (n == 1) {
    z0[0] = { (real)leaf(t0[0].re, u0[0].re, T.leaf), 0 };
    z1[0] = { (real)leaf(t1[0].re, u1[0].re, T.leaf), 0 };
    return;
  }
  size_t m = n / 2;
  cvec a(m), b(m), c(m), d(m), za(m), zb(m), tt(n), uu(n);
  split(t1, n, a.data(), b.data());
  split(u1, n, c.data(), d.data());
  ffs2(T.kids[1], a.data(), b.data(), c.data(), d.data(), za.data(), zb.data(), m, leaf);
  merge(za.data(), zb.data(), n, z1);
  for (size_t i = 0; i < n; i++) {
    tt[i] = add(t0[i], mul(sub(t1[i], z1[i]), T.l[i]));
    uu[i] = add(u0[i], mul(sub(u1[i], z1[i]), T.l[i]));
  }
  split(tt.data(), n, a.data(), b.data());
  split(uu.data(), n, c.data(), d.data());
  ffs2(T.kids[0], a.data(), b.data(), c.data(), d.data(), za.data(), zb.data(), m, leaf);
  merge(za.data(), zb.data(), n, z0);
}
void target(Key& k, const ivec& c, cvec& t0, cvec& t1)
{
  cvec cf = to_fft(c);
  size_t n = c.size();
  t0.resize(n); t1.resize(n);
  for (size_t i = 0; i < n; i++) {
    cplx a = mul(cf[i], k.Ff[i]), b = mul(cf[i], k.ff[i]);
    t0[i] = { -a.re / Q, -a.im / Q };
    t1[i] = { b.re / Q, b.im / Q };
  }
}
bool lattice(Key& k, const cvec& t0, const cvec& t1, const cvec& z0, const cvec& z1, ivec& s1, ivec& s2)
{
  size_t n = t0.size();
  cvec a(n), b(n);
  for (size_t i = 0; i < n; i++) {
    cplx d0 = sub(t0[i], z0[i]), d1 = sub(t1[i], z1[i]);
    a[i] = add(mul(d0, k.gf[i]), mul(d1, k.Gf[i]));
    cplx x = add(mul(d0, k.ff[i]), mul(d1, k.Ff[i]));
    b[i] = { -x.re, -x.im };
  }
  ifft(a); ifft(b);
  s1.resize(n); s2.resize(n);
  bool ok = true;
  for (size_t i = 0; i < n; i++) {
    real u = roundl(a[i].re), v = roundl(b[i].re);
    if (fabsl(u - a[i].re) > 1e-4L || fabsl(v - b[i].re) > 1e-4L) ok = false;
    s1[i] = (int)u; s2[i] = (int)v;
  }
  return ok;
}
}

bool sign(Key& k, Span msg, const bytes& stream, bytes& sig, SignInfo& info, int max_attempts)
{
  build_tree(k);
  const Params& p = P(k.n);
  if (stream.size() < 40) { info.under = true; return false; }
  ivec c = hash_to_point(k.n, stream.data(), msg);
  cvec t0, t1;
  target(k, c, t0, t1);
  Stream st{ stream.data(), stream.size(), 40 };
  SzInfo si;
  for (info.attempts = 1; info.attempts <= max_attempts; info.attempts++) {
    cvec z0(k.n), z1(k.n);
    auto leaf = [&](real mu, real sg) -> real { return (real)samplerz(mu, sg, (real)p.sigmin, st, si, 1e-9L); };
    ffs(k.T, t0.data(), t1.data(), z0.data(), z1.data(), (size_t)k.n, leaf);
    info.sampler_iters = si.iters;
    info.ambiguous |= si.ambiguous;
    if (st.under) { info.under = true; return false; }
    ivec s1, s2;
    if (!lattice(k, t0, t1, z0, z1, s1, s2)) { info.ambiguous = true; return false; }
    int64_t norm = 0;
    info.max_abs_s2 = 0;
    for (int i = 0; i < k.n; i++) {
      norm += (int64_t)s1[i] * s1[i] + (int64_t)s2[i] * s2[i];
      info.max_abs_s2 = std::max(info.max_abs_s2, std::abs(s2[i]));
    }
    info.norm = norm;
    info.used = st.pos;
    if (norm == p.beta2) info.norm_edge = true;
    if (norm > p.beta2) { info.too_long++; continue; }
    info.bits = compressed_bits(s2);
    bytes body;
    if (!compress(k.n, s2, body)) { info.no_fit++; continue; }
    sig = make_sig(k.n, stream.data(), body);
    return true;
  }
  return false;
}

bool gen_pair(int n, Stream& s, ivec& f, ivec& g, bool& ambiguous)
{
  SzInfo si;
  const int k = 4096 / n;
  for (ivec* v : { &f, &g }) {
    v->assign(n, 0);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < k; j++) {
        (*v)[i] += samplerz(0.0L, 1.43300980528773L, (real)P(n).sigmin, s, si, 0);
        if (s.under) return false;
      }
  }
  ambiguous |= si.ambiguous;
  return true;
}

void ff_steer(Key& k, const ivec& c, const std::vector<real>& e1, const std::vector<real>& e2,
              const Pick& pick, ivec& s1, ivec& s2)
{
  build_tree(k);
  size_t n = c.size();
  cvec t0, t1;
  target(k, c, t0, t1);
  cvec a(n), b(n), u0(n), u1(n), z0(n), z1(n);
  for (size_t i = 0; i < n; i++) { a[i] = { e1[i], 0 }; b[i] = { e2[i], 0 }; }
  fft(a); fft(b);
  // (e1,e2) B^-1 with B = [[g,-f],[G,-F]], det = -gF + fG = q:
  // B^-1 = 1/q [[-F, f],[-G, g]]
  for (size_t i = 0; i < n; i++) {
    cplx x = add(mul(a[i], k.Ff[i]), mul(b[i], k.Gf[i]));
    cplx y = add(mul(a[i], k.ff[i]), mul(b[i], k.gf[i]));
    u0[i] = sub(t0[i], { -x.re / Q, -x.im / Q });
    u1[i] = sub(t1[i], { y.re / Q, y.im / Q });
  }
  ffs2(k.T, t0.data(), t1.data(), u0.data(), u1.data(), z0.data(), z1.data(), n,
       [&](real mu, real mus, real sg) { return pick(mu, mus, sg); });
  lattice(k, t0, t1, z0, z1, s1, s2);
}
}
