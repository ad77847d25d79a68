#include "world.hpp"
#include "seam.hpp"
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <fstream>
#include <sstream>

// ------------------------------------------------------------------ plans
Op& Op::set(const std::string& k, const std::string& v)
{
  for (auto& p : kv) if (p.first == k) { p.second = v; return *this; }
  kv.push_back({ k, v });
  return *this;
}
bool Op::has(const std::string& k) const { for (auto& p : kv) if (p.first == k) return true; return false; }
std::string Op::s(const std::string& k, const std::string& d) const { for (auto& p : kv) if (p.first == k) return p.second; return d; }
int64_t Op::i(const std::string& k, int64_t d) const { return has(k) ? strtoll(s(k).c_str(), nullptr, 0) : d; }
uint64_t Op::u(const std::string& k, uint64_t d) const { return has(k) ? strtoull(s(k).c_str(), nullptr, 0) : d; }
double Op::f(const std::string& k, double d) const { return has(k) ? strtod(s(k).c_str(), nullptr) : d; }
std::string Op::str() const
{
  std::string o = kind;
  for (auto& p : kv) o += " " + p.first + "=" + p.second;
  return o;
}
std::vector<std::string> split(const std::string& s, char c)
{
  std::vector<std::string> v;
  std::string cur;
  for (char x : s) { if (x == c) { v.push_back(cur); cur.clear(); } else cur += x; }
  if (!cur.empty() || !v.empty()) v.push_back(cur);
  return v;
}
Op Op::parse(const std::string& line)
{
  Op o;
  for (auto& t : split(line, ' ')) {
    if (t.empty()) continue;
    if (o.kind.empty()) { o.kind = t; continue; }
    size_t e = t.find('=');
    if (e != std::string::npos) o.kv.push_back({ t.substr(0, e), t.substr(e + 1) });
  }
  return o;
}
std::string Plan::str() const
{
  std::string o = "falcon-sim-plan 1\nprop " + prop + "\nseed " + std::to_string(seed) + "\n";
  for (auto& x : ops) o += x.str() + "\n";
  return o;
}
Plan Plan::parse(const std::string& text)
{
  Plan p;
  std::istringstream in(text);
  std::string l;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    if (l.rfind("falcon-sim-plan", 0) == 0) continue;
    if (l.rfind("prop ", 0) == 0) { p.prop = l.substr(5); continue; }
    if (l.rfind("seed ", 0) == 0) { p.seed = strtoull(l.c_str() + 5, nullptr, 10); continue; }
    p.ops.push_back(Op::parse(l));
  }
  return p;
}

// ------------------------------------------------------------------ fixtures
bytes make_msg(uint64_t len, uint64_t seed)
{
  bytes m = Rng(seed ^ 0x6d7367).blob(len);
  const size_t n = m.size(), k = std::min<size_t>(n, 1 + seed / 16 % 24);
  switch (seed % 16) { // content classes
    case 0: std::fill(m.begin(), m.end(), 0); break;
    case 1: std::fill(m.begin(), m.end(), 0xff); break;
    case 2: case 3: std::fill(m.end() - (long)k, m.end(), 0); break;
    case 4: std::fill(m.begin(), m.begin() + (long)k, 0); break;
    case 5: for (auto& b : m) b = (uint8_t)(32 + b % 95); break;
    case 6: if (n) std::fill(m.begin(), m.end(), m[0]); break;
    default: break;
  }
  return m;
}
static ref::ivec parse_ivec(const std::string& s)
{
  ref::ivec v;
  for (auto& t : split(s, ',')) if (!t.empty()) v.push_back(atoi(t.c_str()));
  return v;
}
void load_fixtures(Fixtures& fx, const std::string& dir)
{
  for (int n : { 512, 1024 }) {
    std::ifstream in(dir + "/keys" + std::to_string(n) + ".txt");
    std::string l;
    while (std::getline(in, l)) {
      auto t = split(l, ' ');
      if (t[0] == "key") {
        FixKey k;
        k.n = n;
        k.pk = unhex(t[1]);
        k.sk = unhex(t[2]);
        k.k.n = n;
        if (ref::decode_sk(n, k.sk, k.k.f, k.k.g, k.k.F) != ref::SK_OK || !ref::recompute_G(k.k.f, k.k.g, k.k.F, k.k.G) || !ref::decode_pk(n, k.pk, k.k.h)) {
          fprintf(stderr, "bad fixture\n");
          exit(2);
        }
        fx.keys[n == 1024].push_back(k);
      } else if (t[0] == "sig") {
        fx.keys[n == 1024].back().sigs.push_back({ unhex(t[1]), unhex(t[2]) });
      }
    }
    if (fx.keys[n == 1024].empty()) { fprintf(stderr, "no fixtures in %s\n", dir.c_str()); exit(2); }
  }
  std::ifstream in(dir + "/special.txt");
  std::string l;
  while (std::getline(in, l)) {
    auto t = split(l, ' ');
    if (t.size() < 4) continue;
    fx.special.push_back({ atoi(t[0].c_str()), t[1], parse_ivec(t[2]), parse_ivec(t[3]) });
  }
  std::ifstream nr(dir + "/near.txt");
  while (std::getline(nr, l)) {
    auto t = split(l, ' ');
    if (t.size() < 4) continue;
    fx.near.push_back({ atoi(t[0].c_str()), t[1], parse_ivec(t[2]), parse_ivec(t[3]) });
  }
  std::ifstream sf(dir + "/slow.txt");
  while (std::getline(sf, l)) {
    auto t = split(l, ' ');
    if (t.size() == 2) fx.slow[t[0] == "1024"].push_back(strtoull(t[1].c_str(), nullptr, 10));
  }
  std::ifstream tf(dir + "/slot.txt");
  while (std::getline(tf, l)) {
    auto t = split(l, ' ');
    if (t.size() == 6) fx.slot[t[0] == "1024"].push_back({ atoi(t[1].c_str()), atoi(t[2].c_str()), atoi(t[3].c_str()), atoi(t[4].c_str()), atoi(t[5].c_str()) });
  }
  std::ifstream hf(dir + "/half.txt");
  while (std::getline(hf, l)) {
    auto t = split(l, ' ');
    if (t.size() == 2) fx.half[t[0] == "1024"].push_back(strtoull(t[1].c_str(), nullptr, 10));
  }
}

// ------------------------------------------------------------------ steering
// mu_err >= 0: every comparison is decided with as little to spare as that error of the centre allows
bool emit_z(ref::real mu, ref::real sigma, ref::real sigmin, long z, Rng& r, double preject, bytes& out, ref::real mu_err)
{
  auto iter = [&](int z0, int b, bool accept) {
    uint64_t t = ref::ber_threshold(mu, sigma, sigmin, z0, b);
    bytes cmp;
    int i = 56;
    if (mu_err >= 0) {
      const uint64_t e = ref::ber_error(t, sigma, z0, mu_err);
      if (t > e && t < UINT64_MAX - e) {
        const uint64_t lo = t - e, hi = t + e;
        for (int j = 0; j < 56; j += 8) {
          if (lo >> j >> 8 != hi >> j >> 8) continue;
          const unsigned a = (lo >> j) & 255, b2 = (hi >> j) & 255;
          if (accept ? a == 0 : b2 == 255) continue;
          for (int q = 56; q > j; q -= 8) cmp.push_back((uint8_t)(t >> q));
          cmp.push_back((uint8_t)(accept ? a - 1 : b2 + 1));
          i = -8 - 1;
          break;
        }
      }
    }
    const bool set = !cmp.empty();
    for (; i >= 0; i -= 8) {
      unsigned v = (t >> i) & 255;
      if (accept) {
        if (v == 0) { cmp.push_back(0); continue; }
        cmp.push_back((uint8_t)r.below(v));
      } else {
        if (v == 255) { cmp.push_back(255); continue; }
        cmp.push_back((uint8_t)(v + 1 + r.below(255 - v)));
      }
      break;
    }
    if (i < 0 && !set) return false;
    using u128 = unsigned __int128;
    u128 lo = z0 == 18 ? 0 : ref::rcdt(z0), hi = z0 == 0 ? ((u128)1 << 72) : ref::rcdt(z0 - 1);
    u128 span = hi - lo;
    u128 rv = ((u128)r.next() << 64) | r.next();
    u128 u = lo + rv % span;
    for (int k = 0; k < 9; k++) out.push_back((uint8_t)(u >> (8 * k)));
    out.push_back((uint8_t)((r.next() & 0xfe) | (unsigned)b));
    out.insert(out.end(), cmp.begin(), cmp.end());
    return true;
  };
  while (preject > 0 && r.chance(preject)) {
    int z0 = (int)r.below(4);
    iter(z0, (int)r.below(2), false);
  }
  long fl = (long)floorl(mu), d = z - fl;
  int b = d > 0 ? 1 : 0;
  long z0 = b ? d - 1 : -d;
  if (z0 < 0 || z0 > 18) return false;
  return iter((int)z0, b, true);
}
// adds lattice vectors to (s1,s2) so that its squared norm becomes want
static bool reach_norm(const ref::Key& k, int64_t want, ref::ivec& s1, ref::ivec& s2, Rng& r)
{
  const size_t n = s1.size();
  struct V { ref::ivec a, b; int64_t d; };
  auto vec = [&](size_t id) { // rotations of (g,-f) and (G,-F), and their opposites
    V v{ ref::ivec(n), ref::ivec(n), 0 };
    const bool big = id & 1, neg = id & 2;
    const size_t rot = id >> 2;
    for (size_t i = 0; i < n; i++) {
      const size_t j = (i + rot) % n;
      const int sg = ((i + rot) >= n ? -1 : 1) * (neg ? -1 : 1);
      v.a[j] = sg * (big ? k.G[i] : k.g[i]);
      v.b[j] = -sg * (big ? k.F[i] : k.f[i]);
    }
    for (size_t i = 0; i < n; i++) v.d += (2 * (int64_t)s1[i] + v.a[i]) * v.a[i] + (2 * (int64_t)s2[i] + v.b[i]) * v.b[i];
    return v;
  };
  std::vector<int64_t> corr(n); // inner products of (g,-f) and its rotations
  {
    const V v = vec(0);
    for (size_t k = 0; k < n; k++) {
      const V w = vec(k << 2);
      for (size_t i = 0; i < n; i++) corr[k] += (int64_t)v.a[i] * w.a[i] + (int64_t)v.b[i] * w.b[i];
    }
  }
  auto apply = [&](const V& v) { for (size_t i = 0; i < n; i++) { s1[i] += v.a[i]; s2[i] += v.b[i]; } };
  for (int round = 0; round < 40; round++) {
    int64_t norm = 0;
    for (size_t i = 0; i < n; i++) norm += (int64_t)s1[i] * s1[i] + (int64_t)s2[i] * s2[i];
    const int64_t diff = want - norm;
    std::vector<std::pair<int64_t, size_t>> d;
    for (size_t id = 0; id < 4 * n; id += 2) d.push_back({ vec(id).d, id });
    std::sort(d.begin(), d.end());
    // get close, one vector at a time
    if (std::abs(diff) > 60000) {
      auto it = std::lower_bound(d.begin(), d.end(), std::pair<int64_t, size_t>{ diff, 0 });
      if (it == d.end()) --it;
      apply(vec(it->second));
      continue;
    }
    // then two at once
    const size_t from = (size_t)r.below(d.size());
    for (size_t q = 0; q < d.size(); q++) {
      const auto& x = d[(from + q) % d.size()];
      auto it = std::lower_bound(d.begin(), d.end(), std::pair<int64_t, size_t>{ diff - x.first - 2500, 0 });
      for (; it != d.end() && it->first <= diff - x.first + 2500; ++it) {
        if (it->second >> 2 == x.second >> 2) continue;
        const size_t i = x.second >> 2, j = it->second >> 2;
        const int64_t ip = corr[i < j ? j - i : i - j] * ((x.second ^ it->second) & 2 ? -1 : 1);
        if (x.first + it->first + 2 * ip != diff) continue;
        apply(vec(x.second));
        apply(vec(it->second));
        return true;
      }
    }
    apply(vec(d[d.size() / 2].second));
  }
  return false;
}
bytes World::steer_sign(KeyRec& k, const bytes& msg, const std::string& spec, uint64_t seed, std::vector<std::string>* done)
{
  Rng r(seed ^ 0x57ee5);
  const auto& P = ref::P(k.n);
  bytes out = r.blob(40);
  const size_t n = (size_t)k.n;
  if (spec[0] == 'h' && !fx.slow[n == 1024].empty()) {
    const auto& w = fx.slow[n == 1024];
    const uint64_t s[5] = { w[strtoull(spec.c_str() + 1, nullptr, 10) % w.size()], 0x0123456789abcdefull, 0x5a5a5a5a5a5a5a5aull, 0xfedcba9876543210ull, 0x1122334455667788ull };
    memcpy(out.data(), s, 40);
    count("fault:steer-slow-hash");
  }
  ref::ivec c = ref::hash_to_point(k.n, out.data(), msg);
  std::vector<ref::real> e1(n), e2(n);
  struct Res { bytes b; ref::ivec s1, s2; int64_t norm; int64_t bits; };
  auto attempt = [&](bool gauss, double prej, bool tails, ref::real err = -1) {
    Res x;
    int tail_left = tails ? 3 : 0;
    auto pick = [&](ref::real mu, ref::real mus, ref::real sg) -> int32_t {
      long fl = (long)floorl(mu);
      long z = lroundl(gauss ? mus + (ref::real)r.gauss() * sg : mus);
      if (tail_left && r.below(n) < 2) { z = fl + (r.below(2) ? 6 + (long)r.below(4) : -5 - (long)r.below(4)); tail_left--; }
      z = std::max(fl - 18, std::min(fl + 19, z));
      while (!emit_z(mu, sg, P.sigmin, z, r, prej, x.b, err)) z += z > fl ? -1 : 1;
      return (int32_t)z;
    };
    ref::ff_steer(k.k, c, e1, e2, pick, x.s1, x.s2);
    x.norm = 0;
    for (size_t i = 0; i < n; i++) x.norm += (int64_t)x.s1[i] * x.s1[i] + (int64_t)x.s2[i] * x.s2[i];
    x.bits = (int64_t)ref::compressed_bits(x.s2);
    return x;
  };
  auto zero = [&] { std::fill(e1.begin(), e1.end(), 0); std::fill(e2.begin(), e2.end(), 0); };
  for (auto& part : split(spec, '+')) {
    if (part.empty()) continue;
    zero();
    const char t = part[0];
    const std::string arg = part.substr(1, part.find('*') - 1);
    Res x;
    if (t == 'n') {
      const double target = (double)P.beta2 * atof(arg.c_str()) / 1000.0;
      std::vector<ref::real> d1(n), d2(n);
      for (auto& v : d1) v = (ref::real)r.unit() * 2 - 1;
      for (auto& v : d2) v = (ref::real)r.unit() * 2 - 1;
      double a = sqrt(std::max(1.0, target - 1.4e6) / (2.0 * (double)n / 3.0));
      for (int it = 0; it < 4; it++) {
        for (size_t i = 0; i < n; i++) { e1[i] = d1[i] * a; e2[i] = d2[i] * a; }
        x = attempt(false, 0, false);
        if (std::fabs((double)x.norm - target) < target * 2e-4) break;
        a *= sqrt(target / (double)x.norm);
      }
    } else if (t == 'e') { // squared norm exactly that far from the bound
      const int64_t want = P.beta2 + atoi(arg.c_str());
      std::vector<ref::real> d1(n), d2(n);
      for (auto& v : d1) v = (ref::real)r.unit() * 2 - 1;
      for (auto& v : d2) v = (ref::real)r.unit() * 2 - 1;
      double a = sqrt(std::max(1.0, (double)want - 1.4e6) / (2.0 * (double)n / 3.0));
      for (int it = 0; it < 8; it++) {
        for (size_t i = 0; i < n; i++) { e1[i] = d1[i] * a; e2[i] = d2[i] * a; }
        x = attempt(false, 0, false);
        if (std::fabs((double)x.norm - (double)want) < 400000) break;
        a *= sqrt((double)want / (double)x.norm);
      }
      for (int it = 0; it < 3 && x.norm != want; it++) {
        ref::ivec s1 = x.s1, s2 = x.s2;
        if (!reach_norm(k.k, want, s1, s2, r)) break;
        for (size_t i = 0; i < n; i++) { e1[i] = s1[i]; e2[i] = s2[i]; }
        x = attempt(false, 0, false);
      }
      if (x.norm == want) count("fault:steer-exact-norm");
    } else if (t == 'f') {
      const int64_t want = (int64_t)(P.siglen - 41) * 8 + atoi(arg.c_str());
      std::vector<int> mag(n, 0), sg(n);
      for (auto& v : sg) v = r.below(2) ? 1 : -1;
      // units of 128 spread over coefficients
      int64_t units = want - 9 * (int64_t)n;
      for (int64_t u = 0; u < units;) { size_t i = (size_t)r.below(n); if (mag[i] == 0 || (mag[i] < 2 && r.below(8) == 0)) { mag[i]++; u++; } }
      for (int it = 0; it < 60; it++) {
        for (size_t i = 0; i < n; i++) e2[i] = sg[i] * (mag[i] ? 64.0L + 128.0L * mag[i] : (ref::real)(40 * ((int)(i & 1) ? 1 : -1)) * 0.5L);
        x = attempt(false, 0, false);
        int64_t diff = want - x.bits;
        if (diff == 0) break;
        for (int64_t q = 0; q < std::min<int64_t>(std::abs(diff), 3); q++) {
          size_t i = (size_t)r.below(n);
          for (size_t g = 0; g < n; g++, i = (i + 1) % n)
            if (diff > 0 ? mag[i] == 0 : mag[i] > 0) { mag[i] += diff > 0 ? 1 : -1; break; }
        }
      }
    } else if (t == 's') {
      for (auto& sp : split(arg, ',')) {
        auto q = split(sp, ':');
        if (q.size() == 2) e2[(size_t)atoi(q[0].c_str()) % n] = atof(q[1].c_str());
      }
      x = attempt(false, 0, false);
    } else if (t == 'o') { // displacement of s1
      for (auto& sp : split(arg, ',')) {
        auto q = split(sp, ':');
        if (q.size() == 2) e1[(size_t)atoi(q[0].c_str()) % n] = atof(q[1].c_str());
      }
      x = attempt(false, 0, false);
    } else if (t == 'r') {
      x = attempt(true, atof(arg.c_str()) / 100.0, false);
    } else if (t == 't') { // comparisons of the sampler decided by as little as rounding allows
      x = attempt(true, atof(arg.c_str()) / 100.0, false, 1e-9L);
      count("fault:steer-tight-comparisons");
    } else if (t == 'x') {
      x = attempt(true, 0.1, true);
    } else continue;
    out.insert(out.end(), x.b.begin(), x.b.end());
    const bool too_long = x.norm > P.beta2;
    const bool no_fit = !too_long && x.bits > (int64_t)(P.siglen - 41) * 8;
    if (done) done->push_back(part + (too_long ? " norm>bound" : no_fit ? " does-not-fit" : x.bits == (int64_t)(P.siglen - 41) * 8 ? " exact-fit" : " ok"));
    count(too_long ? "fault:steer-norm-rejected" : no_fit ? "fault:steer-fit-rejected" : x.bits == (int64_t)(P.siglen - 41) * 8 ? "fault:steer-exact-fit" : "fault:steer-accepted");
    if (!too_long && !no_fit) break;
    if (part.find('*') != std::string::npos) // again, as often as asked for: same bytes, same attempt
      for (uint64_t m = std::min<uint64_t>(5000, strtoull(part.c_str() + part.find('*') + 1, nullptr, 10)); m > 1; m--) out.insert(out.end(), x.b.begin(), x.b.end());
  }
  return out;
}
bytes World::pair_bytes(int n, const ref::ivec& f, const ref::ivec& g, Rng& r)
{
  const int k = 4096 / n;
  bytes out;
  const ref::real err = r.below(2) ? -1 : 0;
  for (const ref::ivec* v : { &f, &g })
    for (int c : *v) {
      std::vector<int> z((size_t)k, c / k);
      int rest = c - (c / k) * k;
      for (int i = 0; rest != 0; i++) { z[(size_t)i] += rest > 0 ? 1 : -1; rest += rest > 0 ? -1 : 1; }
      // spread
      for (int i = 0; i < 2 * k; i++) {
        size_t a = (size_t)r.below((uint64_t)k), b = (size_t)r.below((uint64_t)k);
        if (z[a] < 3 && z[b] > -3) { z[a]++; z[b]--; }
      }
      for (int x : z)
        if (!emit_z(0, 1.43300980528773L, ref::P(n).sigmin, x, r, err < 0 ? 0.02 : 0.2, out, err)) { fprintf(stderr, "pair not representable\n"); exit(2); }
    }
  return out;
}
static int64_t sqn(const ref::ivec& f, const ref::ivec& g)
{
  int64_t s = 0;
  for (int x : f) s += (int64_t)x * x;
  for (int x : g) s += (int64_t)x * x;
  return s;
}
// candidate pairs for key generation, by specification string
bool World::make_pair(int n, const std::string& spec, ref::ivec& f, ref::ivec& g)
{
  auto t = split(spec, ':');
  const std::string& kind = t[0];
  const uint64_t a = t.size() > 1 ? strtoull(t[1].c_str(), nullptr, 10) : 0;
  Rng r(a ^ 0x9a1f);
  FixKey& k = fx.key(n, (size_t)a);
  f = k.k.f;
  g = k.k.g;
  if (kind == "key") return true;
  if (kind == "swap") { std::swap(f, g); return true; }
  if (kind == "zf") { std::fill(f.begin(), f.end(), 0); return true; }
  if (kind == "zg") { std::fill(g.begin(), g.end(), 0); return true; }
  if (kind == "zz") { std::fill(f.begin(), f.end(), 0); std::fill(g.begin(), g.end(), 0); return true; }
  if (kind == "eq") { g = f; return true; }
  if (kind == "even") { // both field norms even: the tower has no solution
    for (ref::ivec* v : { &f, &g }) { int s = 0; for (int x : *v) s += x; if (s & 1) (*v)[(size_t)r.below((uint64_t)n)] += 1; }
    return true;
  }
  if (kind == "rnd") {
    for (ref::ivec* v : { &f, &g }) for (int& x : *v) x = (int)lround(r.gauss() * (n == 512 ? 4.05 : 2.87));
    return true;
  }
  if (kind == "norm") { // squared length exactly at the given offset from floor(bound)
    const int64_t want = (int64_t)floorl(ref::gs_bound()) + (t.size() > 2 ? atoi(t[2].c_str()) : 0);
    for (int it = 0; it < 100000 && sqn(f, g) != want; it++) {
      int64_t d = want - sqn(f, g);
      ref::ivec& v = r.below(2) ? f : g;
      int& x = v[(size_t)r.below((uint64_t)n)];
      if (std::abs(x) > 8) continue;
      int s = d > 0 ? (x >= 0 ? 1 : -1) : (x > 0 ? -1 : x < 0 ? 1 : 0);
      if (std::abs(d) < 2 * std::abs(x) + 1 && std::abs(d) > 0 && !(d == 1 && x == 0) && !(d == -1 && std::abs(x) == 1)) { if (r.below(3)) continue; }
      x += s;
    }
    return sqn(f, g) == want;
  }
  if (kind == "dual") { // raise the dual norm towards and over the bound, keeping the length small
    const long double want = ref::gs_bound() * (1.0L + (t.size() > 2 ? atof(t[2].c_str()) : 0) / 1000.0L);
    long double best = -1;
    ref::ivec bf = f, bg = g;
    for (int it = 0; it < 60; it++) {
      ref::ivec cf = bf, cg = bg;
      ref::ivec& v = r.below(2) ? cf : cg;
      v[(size_t)r.below((uint64_t)n)] += r.below(2) ? 1 : -1;
      long double x = ref::gs_norm(cf, cg);
      long double e = fabsl(x - want);
      if ((long double)sqn(cf, cg) < x && (best < 0 || e < best)) { best = e; bf = cf; bg = cg; }
    }
    f = bf;
    g = bg;
    return true;
  }
  if (kind == "noninv") { // f(w) = 0 mod q at a root of x^n + 1
    // find a root of x^n+1
    static std::map<int, int> root;
    if (!root.count(n)) {
      for (int x = 2; x < ref::Q; x++) {
        int64_t p = 1;
        int64_t b = x;
        for (int e = n; e; e >>= 1) { if (e & 1) p = p * b % ref::Q; b = b * b % ref::Q; }
        if (p == ref::Q - 1) { root[n] = x; break; }
      }
    }
    int64_t w0 = root[n], w = 1;
    uint64_t odd = 2 * r.below((uint64_t)n) + 1;
    { int64_t b = w0; for (uint64_t e = odd; e; e >>= 1) { if (e & 1) w = w * b % ref::Q; b = b * b % ref::Q; } }
    std::vector<int64_t> pw((size_t)n);
    pw[0] = 1;
    for (size_t i = 1; i < (size_t)n; i++) pw[i] = pw[i - 1] * w % ref::Q;
    int64_t v = 0;
    for (size_t i = 0; i < (size_t)n; i++) v = (v + (f[i] + ref::Q) * pw[i]) % ref::Q;
    // f += d1 x^i + d2 x^j with d in +-1
    std::map<int64_t, std::pair<size_t, int>> tab;
    for (size_t i = 0; i < (size_t)n; i++) for (int d : { -1, 1 }) tab[((v + d * pw[i]) % ref::Q + ref::Q) % ref::Q] = { i, d };
    size_t off = (size_t)r.below((uint64_t)n);
    for (size_t jj = 0; jj < (size_t)n; jj++) {
      size_t j = (jj + off) % (size_t)n;
      for (int d : { -1, 1 }) {
        int64_t need = ((-d * pw[j]) % ref::Q + ref::Q) % ref::Q;
        auto it = tab.find(need);
        if (it != tab.end() && it->second.first != j) {
          f[it->second.first] += it->second.second;
          f[j] += d;
          return true;
        }
      }
    }
    return false;
  }
  if (kind == "big") { // one coefficient outside the storable range, length still small
    const int lim = n == 512 ? 31 : 15;
    const int m = t.size() > 2 ? atoi(t[2].c_str()) : 1;
    ref::ivec& v = r.below(2) ? f : g;
    v[(size_t)r.below((uint64_t)n)] = (r.below(2) ? 1 : -1) * (lim + m);
    // shorten elsewhere until the length is below the bound
    for (int it = 0; it < 200000 && (long double)sqn(f, g) > ref::gs_bound() - 150; it++) {
      ref::ivec& u = r.below(2) ? f : g;
      int& x = u[(size_t)r.below((uint64_t)n)];
      if (x != 0 && std::abs(x) < lim - 2) x += x > 0 ? -1 : 1;
    }
    return true;
  }
  if (kind == "edge") { // coefficients at both ends of the storable range, at every position modulo 8
    const int lim = n == 512 ? 31 : 15;
    const size_t per = n == 512 ? 8 : 32;
    for (int tries = 0; tries < 16; tries++) {
      for (ref::ivec* v : { &f, &g }) for (int& x : *v) x = (int)lround(r.gauss() * (n == 512 ? 4.05 : 2.87));
      std::set<std::pair<int, size_t>> fixed;
      for (size_t q = 0; q < per; q++) {
        const size_t c = (q + (size_t)a * per) % 32; // polynomial, sign, position modulo 8
        const size_t at = (size_t)r.below((uint64_t)n / 8) * 8 + c % 8;
        if (!fixed.insert({ (int)(c / 16), at }).second) continue;
        (c / 16 ? g : f)[at] = (c / 8) % 2 ? lim : -lim;
      }
      for (int it = 0; it < 2000000 && (long double)sqn(f, g) > ref::gs_bound() - 150; it++) {
        const int w = (int)r.below(2);
        const size_t at = (size_t)r.below((uint64_t)n);
        int& x = (w ? g : f)[at];
        if (x != 0 && !fixed.count({ w, at })) x += x > 0 ? -1 : 1;
      }
      if (ref::gs_norm(f, g) < ref::gs_bound()) break;
    }
    return true;
  }
  if (kind == "orth" || kind == "half") {
    // ff* + gg* is a constant m, so what is left of F when it is reduced by f has
    // coefficients that are multiples of 1/m, exactly one half among them
    const uint64_t a2 = kind == "half" && !fx.half[n == 1024].empty() ? fx.half[n == 1024][a % fx.half[n == 1024].size()] : a;
    for (uint64_t tries = 0; tries < 64; tries++) {
      Rng q(mix(a2, 0x0e7 + tries));
      f.assign((size_t)n, 0);
      g = f;
      f[0] = 1;
      auto mono = [&](ref::ivec& v, uint64_t i, int c) { i %= 2 * (uint64_t)n; v[i % (uint64_t)n] += i < (uint64_t)n ? c : -c; };
      auto mul = [&](const ref::ivec& x, const ref::ivec& y) {
        ref::ivec z((size_t)n, 0);
        for (int i = 0; i < n; i++)
          if (x[(size_t)i])
            for (int j = 0; j < n; j++)
              if (y[(size_t)j]) { const int e = i + j; z[(size_t)(e % n)] += (e < n ? 1 : -1) * x[(size_t)i] * y[(size_t)j]; }
        return z;
      };
      auto adj = [&](const ref::ivec& x) { ref::ivec z((size_t)n, 0); z[0] = x[0]; for (int i = 1; i < n; i++) z[(size_t)(n - i)] = -x[(size_t)i]; return z; };
      std::vector<int> st = q.below(2) ? std::vector<int>{ 2, 5, 5, 5, 5, 13 } : std::vector<int>{ 2, 5, 5, 13, 17 };
      for (size_t i = st.size(); i-- > 1;) std::swap(st[i], st[q.below(i + 1)]);
      for (int w : st) {
        ref::ivec u((size_t)n, 0), x((size_t)n, 0);
        const uint64_t j = q.below(2 * (uint64_t)n), e = 1 + q.below(200);
        if (w == 2) { mono(u, 0, 1); mono(x, j, 1); }
        else if (w == 5 && (n == 1024 || q.below(3))) { mono(u, 0, 1); mono(u, e, 1); mono(u, 2 * e, -1); mono(x, j, 1); mono(x, j + 2 * e, 1); }
        else if (w == 5) { mono(u, 0, 2); mono(x, j, 1); }
        else if (w == 13) { mono(u, 0, 3); mono(x, j, 2); }
        else { mono(u, 0, 4); mono(x, j, 1); }
        const ref::ivec a1 = mul(u, f), b1 = mul(adj(x), g), c1 = mul(x, f), d1 = mul(adj(u), g);
        for (size_t i = 0; i < (size_t)n; i++) { f[i] = a1[i] - b1[i]; g[i] = c1[i] + d1[i]; }
      }
      int mx = 0;
      for (size_t i = 0; i < (size_t)n; i++) mx = std::max(mx, std::max(std::abs(f[i]), std::abs(g[i])));
      if (mx <= (n == 512 ? 31 : 15)) return true;
    }
    return false;
  }
  if (kind == "skew") { // FFT coefficients so unequal in size that their norms over subrings exceed double precision
    const long double c = 0.09L + 0.01L * (long double)(a % 5);
    const int sh = n / 4;
    for (int tries = 0; tries < 3000; tries++) {
      for (ref::ivec* v : { &f, &g }) {
        std::vector<long double> x((size_t)n), y((size_t)n);
        for (auto& e : x) e = r.gauss();
        long double l = 0;
        for (int i = 0; i < n; i++) {
          const int b = i - sh, e = i + sh;
          y[(size_t)i] = x[(size_t)i] + c * (b >= 0 ? x[(size_t)b] : -x[(size_t)(b + n)]) + c * (e < n ? x[(size_t)e] : -x[(size_t)(e - n)]);
          l += y[(size_t)i] * y[(size_t)i];
        }
        const long double k = sqrtl(16650 / 2 / l);
        for (int i = 0; i < n; i++) (*v)[(size_t)i] = (int)lroundl(y[(size_t)i] * k);
      }
      int mx = 0;
      for (size_t i = 0; i < (size_t)n; i++) mx = std::max(mx, std::max(std::abs(f[i]), std::abs(g[i])));
      if (mx <= (n == 512 ? 31 : 15) && ref::gs_norm(f, g) < ref::gs_bound()) return true;
    }
    return false;
  }
  if (kind == "near") { // second Gram-Schmidt vector within 1e-4 to 1e-7 of the bound, on either side
    std::vector<SpecialPair*> c;
    for (auto& s : fx.near) if (s.n == n) c.push_back(&s);
    if (c.empty()) return false;
    f = c[a % c.size()]->f;
    g = c[a % c.size()]->g;
    return true;
  }
  if (kind == "special") {
    std::vector<SpecialPair*> c;
    for (auto& s : fx.special) if (s.n == n) c.push_back(&s);
    if (c.empty()) return false;
    f = c[a % c.size()]->f;
    g = c[a % c.size()]->g;
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ world
Node& World::node(int64_t i)
{
  auto& p = nodes[i];
  if (!p) { p.reset(new Node); p->start(); }
  return *p;
}
Node& World::fresh()
{
  solo_.start();
  return solo_;
}
void World::fail(const std::string& p, const std::string& cls, const std::string& what)
{
  if (p != prop && p != "*") { count("other:" + p + ":" + cls); return; }
  if (vio) return;
  vio.reset(new Violation{ cls, what, cur });
  note("VIOLATION " + cls + ": " + what);
}
void World::note(const std::string& s)
{
  if (want_log) log += "  " + s + "\n";
}
void World::state(uint64_t a, uint64_t b)
{
  uint64_t s = mix(a, b);
  st.states.insert(mix(s, state_));
  state_ = s;
}
void World::ambient(const Op& o, Req& q)
{
  uint64_t a = o.u("amb");
  q.amb.poison = a;
  q.amb.place = o.has("place") ? o.u("place") : (a >> 8) % 3;
  q.amb.clock_skew = o.i("skew", a ? (mix(a, 5) & 3 ? (int64_t)(mix(a, 3) % 2000000000000ull) - 1000000000000ll : (int64_t)(mix(a, 3) % 2400000000000000000ull) - 1200000000000000000ll) : 0); // minutes, or decades
  q.amb.clock_rate = a ? 1 + (int64_t)(mix(a, 4) % 1000) : 1;
  if (a && q.amb.clock_skew) count("fault:clock-skew");
}
Entropy World::entropy(const Op& o, const std::string& pre)
{
  Entropy e;
  e.seed = o.u(pre + "ent", 1);
  if (o.has(pre + "stuck")) { e.mode = 1; e.stuck = o.u(pre + "stuck"); count("fault:entropy-stuck"); }
  e.fail_open = o.i(pre + "fopen", -1);
  e.fail_word = o.i(pre + "fword", -1);
  e.fail_count = o.i(pre + "fcount", 1);
  e.fail_kind = o.u(pre + "fkind");
  return e;
}
const char* fn_name(uint64_t fn)
{
  static const char* nm[] = { "none", "keygen", "keygen_mat", "ntru_gen", "sign", "load", "sign_bt", "verify", "load_pk", "verify_h",
    "decode_pk", "encode_pk", "decode_sk", "encode_sk", "decode_sig", "encode_sig", "prng", "prng_read", "samplerz", "samplerz_arr", "recompute_G", "load_raw" };
  return nm[fn];
}
bool has_ret(uint64_t fn)
{
  return fn == FN_SIGN_SK || fn == FN_LOAD || fn == FN_VERIFY || fn == FN_LOAD_PK || fn == FN_VERIFY_H || fn == FN_DEC_PK || fn == FN_DEC_SK || fn == FN_DEC_SIG || fn == FN_ENC_SIG;
}
bool World::call(Node& nd, Req& q, Rsp& r, unsigned allow, const char* who)
{
  if (q.budget == 0) {
    const uint64_t m = q.n == 512 ? 1 : 2, pre = q.st.prefix.size() + q.st.pat_len;
    switch (q.fn) {
      case FN_KEYGEN: case FN_KEYGEN_MAT: case FN_NTRU_GEN: q.budget = (m == 1 ? 1500000000ull : 5000000000ull) + 60 * pre; break;
      case FN_SIGN_SK: case FN_SIGN_BT: q.budget = 80000000ull * m + 60 * pre; break;
      default: q.budget = 60000000ull; break;
    }
  }
  r = nd.call(q);
  st.calls++;
  st.edges += r.edges;
  count(std::string("op:") + fn_name(q.fn));
  const uint64_t ob = obs(q, r);
  h.u64(ob);
  h.u64(r.edges);
  if (want_log) {
    char b[256];
    snprintf(b, sizeof b, "%s%s%s n=%" PRId64 " -> status %" PRIu64 " ret %" PRId64 " edges %" PRIu64 " random bytes %" PRIu64 " obs %016" PRIx64 " %s", who, *who ? " " : "", fn_name(q.fn), q.n, r.status, r.ret, r.edges, r.stream_len, ob, r.what.c_str());
    note(b);
  }
  state(mix(q.fn * 131 + (uint64_t)q.n, r.status * 17 + (has_ret(q.fn) ? (uint64_t)(r.ret != 0) : 0)), std::min<uint64_t>(r.stream_len / 8192, 64));
  const std::string nm = fn_name(q.fn);
  switch (r.status) {
    case ST_OK: break;
    case ST_EXC:
      if (r.fail_fired) count("fault:entropy-error", r.fail_fired);
      if (r.alloc_fired) count("fault:allocation-refused", r.alloc_fired);
      if (r.stop_fired) count("fault:call-aborted");
      if (!(allow & EXC)) fail("*", "exception:" + nm, nm + " threw: " + r.what);
      break;
    case ST_CRASH_INJ:
      count("fault:crash-in-call");
      if (!(allow & CRASH)) fail("*", "crash:" + nm, "unexpected injected crash");
      return false;
    case ST_HANG: fail("*", "hang:" + nm, nm + " did not finish within " + std::to_string(q.budget) + " steps"); return false;
    case ST_SIGNAL:
      if ((allow & ABORT) && r.ret == SIGABRT) { count("fault:out-of-memory-abort"); return false; }
      fail("*", "signal:" + nm, nm + " killed the process with signal " + std::to_string(r.ret) + (r.what.empty() ? "" : ": " + r.what)); return false;
    case ST_ASAN: fail("*", "sanitizer:" + nm, nm + ": " + r.what); return false;
    case ST_EXIT: fail("*", "exit:" + nm, nm + " ended the process with code " + std::to_string(r.ret)); return false;
    default: fprintf(stderr, "infrastructure status\n"); exit(2);
  }
  if (r.canary_bad) fail("C03", "outside:" + nm, nm + " wrote outside its buffers");
  if (r.input_bad) fail("C03", "input-changed:" + nm, nm + " changed an input");
  return r.status == ST_OK;
}
// what the caller of an operation can observe
uint64_t World::obs(const Req& q, const Rsp& r)
{
  Wr w;
  const bool good = r.status == ST_OK && (!has_ret(q.fn) || r.ret != 0);
  w.u64(r.status);
  w.i64(has_ret(q.fn) ? (r.ret != 0) : r.ret);
  w.i64(good ? r.ret2 : 0);
  if (good) for (auto& b : r.out) {
    if (q.fn == FN_ENC_SIG && b.size() > 41) w.buf(bytes(b.begin() + 41, b.end())); // header and salt are the caller's
    else w.buf(b);
  }
  w.u64(r.words);
  w.u64(r.opens);
  w.u64(r.stream_len);
  w.u64(r.canary_bad);
  w.u64(r.input_bad);
  w.u64(r.stop_fired);
  if (q.st.record) w.buf(r.stream);
  return hash_bytes(w.b);
}
World::KeyRec* World::key(const Op& o, const std::string& f)
{
  auto it = keys.find(o.s(f));
  return it == keys.end() ? nullptr : &it->second;
}
uint64_t World::honest(const std::string& what, int n)
{
  static std::map<std::string, uint64_t> cache;
  const std::string id = what + std::to_string(n);
  auto it = cache.find(id);
  if (it != cache.end()) return it->second;
  Node nd;
  FixKey& k = fx.key(n, 0);
  Req q;
  q.n = n;
  q.ent.seed = 7;
  q.in[1] = make_msg(32, 1);
  q.budget = 2000000000ull;
  if (what == "sign") { q.fn = FN_SIGN_SK; q.in[0] = k.sk; }
  else if (what == "verify") { q.fn = FN_VERIFY; q.in[0] = k.pk; q.in[1] = k.sigs[0].first; q.in[2] = k.sigs[0].second; }
  else if (what == "decsig") { q.fn = FN_DEC_SIG; q.in[0] = k.sigs[0].second; }
  else if (what == "decpk") { q.fn = FN_DEC_PK; q.in[0] = k.pk; }
  else if (what == "decsk") { q.fn = FN_DEC_SK; q.in[0] = k.sk; }
  else if (what == "keygen") {
    q.fn = FN_KEYGEN;
    Rng r(5);
    q.st.prefix = pair_bytes(n, k.k.f, k.k.g, r);
    q.budget = 20000000000ull;
  }
  Rsp r = nd.call(q);
  nd.stop();
  uint64_t e = r.status == ST_OK ? r.edges : 0;
  if (!e) e = 1000000;
  return cache[id] = e;
}

void World::run(const Plan& p)
{
  for (size_t i = 0; i < p.ops.size() && !vio; i++) {
    cur = i;
    const Op& o = p.ops[i];
    resolved.push_back(o);
    if (want_log) log += "[" + std::to_string(i) + "] " + o.str().substr(0, 400) + "\n";
    st.ops++;
    h.str(o.kind);
    const std::string& k = o.kind;
    if (k == "key") op_key(o);
    else if (k == "keygen") op_keygen(o);
    else if (k == "rng") op_rng(o);
    else if (k == "load") op_load(o);
    else if (k == "crash") op_crash(o);
    else if (k == "sign") op_sign(o);
    else if (k == "deliver") op_deliver(o);
    else if (k == "craft") op_craft(o);
    else if (k == "codec") op_codec(o);
    else if (k == "hostile") op_hostile(o);
    else if (k == "entfail") op_entfail(o);
    else if (k == "seedprobe") op_seedprobe(o);
    else if (k == "nomem") op_nomem(o);
    else if (k == "reads") op_reads(o);
    else if (k == "manyrng") op_manyrng(o);
    else if (k == "huge") op_huge(o);
    else if (k == "give") op_give(o);
    else if (k == "par") op_par(o);
    else if (k == "u") op_hist(o);
    else if (k == "sz") op_sz(o);
    else if (k == "sztie") op_sztie(o);
    else if (k == "damage") op_damage(o);
    else if (k == "spec") op_spec(o);
    else if (k == "old") op_old(o);
    else { fprintf(stderr, "unknown op %s\n", k.c_str()); exit(2); }
  }
  for (auto& n : nodes) n.second->stop();
  solo_.stop();
}

// ------------------------------------------------------------------ keys
void World::op_key(const Op& o)
{
  const int n = (int)o.i("n", 512);
  FixKey& f = fx.key(n, (size_t)o.u("fix"));
  KeyRec k;
  k.n = n;
  k.pk = f.pk;
  k.sk = f.sk;
  ref::build_tree(f.k);
  k.k = f.k;
  keys[o.s("id")] = k;
}
ref::ivec to_ivec(const bytes& b)
{
  ref::ivec v(b.size() / 4);
  memcpy(v.data(), b.data(), b.size());
  return v;
}
bytes to_bytes(const ref::ivec& v)
{
  bytes b(v.size() * 4);
  memcpy(b.data(), v.data(), b.size());
  return b;
}
bytes to_u16(const ref::ivec& v)
{
  bytes b;
  for (int x : v) { b.push_back((uint8_t)x); b.push_back((uint8_t)(x >> 8)); }
  return b;
}
int maxabs(const ref::ivec& v)
{
  int m = 0;
  for (int x : v) m = std::max(m, x == INT32_MIN ? INT32_MAX : std::abs(x));
  return m;
}
// property C06 on one generated key; F, G given when they were returned raw
void World::check_keys(KeyRec& kr, const Req& q, const Rsp& r, const ref::ivec* F, const ref::ivec* G)
{
  const int n = kr.n;
  const int lim = n == 512 ? 31 : 15;
  auto& k = kr.k;
  if (maxabs(k.f) > lim || maxabs(k.g) > lim) fail("C06", "range-fg", "a coefficient of f or g (" + std::to_string(std::max(maxabs(k.f), maxabs(k.g))) + ") does not fit its stored form");
  if (F && maxabs(*F) > 127) fail("C06", "range-F", "a coefficient of F (" + std::to_string(maxabs(*F)) + ") does not fit its stored form");
  if (F) { if (!ref::ntru_exact(k.f, k.g, *F, *G)) fail("C06", "ntru", "fG - gF is not q"); }
  else {
    ref::ivec g2;
    if (!ref::recompute_G(k.f, k.g, k.F, g2)) fail("C06", "ntru", "the stored f, g, F do not complete to a solution of the NTRU equation");
  }
  ref::ivec inv;
  if (!ref::invq(k.f, inv)) fail("C06", "not-invertible", "f is not invertible mod q");
  if (!k.h.empty() && ref::mulq(k.h, k.f) != ref::normq(k.g)) fail("C06", "public-key", "h*f is not g mod q");
  auto gs = ref::gs_norm(k.f, k.g);
  if (gs > ref::gs_bound() * (1 + 1e-9L)) fail("C06", "gram-schmidt", "squared Gram-Schmidt norm " + std::to_string((double)gs) + " above the bound");
  if (q.st.record) {
    ref::Stream s{ r.stream.data(), r.stream.size() };
    ref::ivec f, g, lf, lg;
    bool amb = false, lamb = false;
    int cands = 0;
    while (ref::gen_pair(n, s, f, g, amb)) { lf = f; lg = g; cands++; lamb = amb; }
    count("keygen-candidates", (uint64_t)cands);
    if (!lamb && (lf != k.f || lg != k.g)) fail("C06", "not-from-stream", "f, g are not the last candidate drawn from the random stream (" + std::to_string(cands) + " candidates)");
  }
}
void World::op_keygen(const Op& o)
{
  const int n = (int)o.i("n", 512);
  Node& nd = node(o.i("node"));
  const std::string mode = o.s("mode", "api");
  Req q;
  q.n = n;
  q.rslot = 8;
  ambient(o, q);
  q.ent = entropy(o);
  Rng r(o.u("ent") ^ 0x6b67);
  for (auto& whole : split(o.s("pre"), '+')) { // "kind:a:b*times"
    const std::string sp = whole.substr(0, whole.find('*'));
    if (sp.empty()) continue;
    const uint64_t times = sp.size() < whole.size() ? std::min<uint64_t>(2000, strtoull(whole.c_str() + sp.size() + 1, nullptr, 10)) : 1;
    ref::ivec f, g;
    if (!make_pair(n, sp, f, g)) { count("pair-not-built"); continue; }
    bytes b = pair_bytes(n, f, g, r);
    for (uint64_t t = 0; t < times; t++) q.st.prefix.insert(q.st.prefix.end(), b.begin(), b.end());
    count("fault:steer-pair-" + split(sp, ':')[0], times);
  }
  q.st.record = 1;
  Rsp rr;
  KeyRec kr;
  kr.n = n;
  kr.k.n = n;
  if (mode != "api") {
    Req a;
    a.fn = FN_RNG_NEW;
    a.rslot = 8;
    a.ent = q.ent;
    if (!call(nd, a, rr)) return;
  }
  if (o.has("crash")) q.crash_edge = o.u("crash");
  if (mode == "api") {
    q.fn = FN_KEYGEN;
    if (!call(nd, q, rr, CRASH)) return;
    kr.pk = rr.out[0];
    kr.sk = rr.out[1];
    auto d = ref::decode_sk(n, kr.sk, kr.k.f, kr.k.g, kr.k.F);
    if (d == ref::SK_BAD) { fail("C06", "stored-form", "key generation wrote a secret key that does not decode"); fail("C05", "stored-form", "key generation wrote a secret key that does not decode"); return; }
    if (d == ref::SK_MINVAL) fail("C06", "range-fg", "a stored coefficient has the reserved minimum value");
    if (!ref::decode_pk(n, kr.pk, kr.k.h)) { fail("C06", "stored-form", "key generation wrote a public key that does not decode"); fail("C04", "pk-not-canonical", "key generation wrote a non-canonical public key"); return; }
    check_keys(kr, q, rr);
  } else if (mode == "raw") {
    q.fn = FN_NTRU_GEN;
    if (!call(nd, q, rr, CRASH)) return;
    kr.k.f = to_ivec(rr.out[0]);
    kr.k.g = to_ivec(rr.out[1]);
    kr.k.F = to_ivec(rr.out[2]);
    kr.k.G = to_ivec(rr.out[3]);
    check_keys(kr, q, rr, &kr.k.F, &kr.k.G);
    if (vio) return;
    ref::ivec inv;
    if (!ref::invq(kr.k.f, inv)) return;
    kr.k.h = ref::mulq(kr.k.g, inv);
    Req e;
    Rsp er;
    e.n = n;
    ambient(o, e);
    e.fn = FN_ENC_SK;
    e.in[0] = rr.out[0]; e.in[1] = rr.out[1]; e.in[2] = rr.out[2];
    if (!call(nd, e, er)) return;
    kr.sk = er.out[0];
    e.fn = FN_ENC_PK;
    e.in[0] = to_u16(kr.k.h);
    if (!call(nd, e, er)) return;
    kr.pk = er.out[0];
    ref::ivec f, g, F;
    if (ref::decode_sk(n, kr.sk, f, g, F) != ref::SK_OK || f != kr.k.f || g != kr.k.g || F != kr.k.F)
      fail("C05", "stored-form", "the stored secret key does not decode to the generated polynomials");
    kr.raw = true;
  } else {
    q.fn = FN_KEYGEN_MAT;
    q.slot = o.i("slot", 14);
    if (!call(nd, q, rr, CRASH)) return;
    // B, T stay in the node; f and g are the last candidate of the stream, h is returned
    ref::Stream s{ rr.stream.data(), rr.stream.size() };
    ref::ivec f, g;
    bool amb = false;
    while (ref::gen_pair(n, s, f, g, amb)) { kr.k.f = f; kr.k.g = g; }
    kr.k.h.resize((size_t)n);
    for (size_t i = 0; i < (size_t)n; i++) kr.k.h[i] = rr.out[0][2 * i] | (rr.out[0][2 * i + 1] << 8);
    if (amb) return;
    if (maxabs(kr.k.h) >= ref::Q || ref::mulq(kr.k.h, kr.k.f) != ref::normq(kr.k.g)) fail("C06", "public-key", "h*f is not g mod q for the last candidate of the stream");
    const int lim = n == 512 ? 31 : 15;
    if (maxabs(kr.k.f) > lim || maxabs(kr.k.g) > lim) fail("C06", "range-fg", "a coefficient of f or g does not fit its stored form");
    auto gs = ref::gs_norm(kr.k.f, kr.k.g);
    if (gs > ref::gs_bound() * (1 + 1e-9L)) fail("C06", "gram-schmidt", "squared Gram-Schmidt norm above the bound");
    // the matrix and tree it returned sign for that public key
    Req sg;
    Rsp sr;
    sg.fn = FN_SIGN_BT;
    sg.n = n;
    sg.slot = q.slot;
    sg.rslot = 8;
    sg.in[1] = make_msg(20, o.u("ent"));
    sg.st.record = 1;
    if (!call(nd, sg, sr)) return;
    if (!ref::verify_h(n, kr.k.h, sg.in[1], sr.out[0])) { fail("C01", "does-not-verify", "signature by a freshly generated matrix and tree does not verify"); fail("C06", "matrix", "the generated matrix and tree do not belong to the published key"); }
    return;
  }
  if (o.has("id") && !vio) {
    ref::ivec g2;
    if (!ref::recompute_G(kr.k.f, kr.k.g, kr.k.F, g2)) return;
    if (!kr.raw) kr.k.G = g2;
    keys[o.s("id")] = kr;
  }
}
void World::op_rng(const Op& o)
{
  Req q;
  Rsp r;
  q.fn = FN_RNG_NEW;
  q.rslot = o.i("rslot");
  ambient(o, q);
  q.ent = entropy(o);
  Node& nd = node(o.i("node"));
  if (call(nd, q, r)) nd.rngs[q.rslot] = true;
}
void World::op_load(const Op& o)
{
  KeyRec* k = key(o);
  if (!k) return;
  Node& nd = node(o.i("node"));
  Req q;
  Rsp r;
  q.n = k->n;
  ambient(o, q);
  q.fn = FN_LOAD;
  q.slot = o.i("slot");
  q.in[0] = k->sk;
  if (!call(nd, q, r)) return;
  if (!r.ret) { fail("C05", "refused", "loading a valid stored secret key failed"); return; }
  if (to_ivec(r.out[0]) != k->k.f || to_ivec(r.out[1]) != k->k.g || to_ivec(r.out[2]) != k->k.F) { fail("C05", "decode", "the loaded polynomials differ from the generated ones"); fail("C04", "sk-decode", "secret key decodes to other polynomials"); }
  if (to_ivec(r.out[3]) != k->k.G) fail("C05", "recompute-G", "the recomputed G does not complete the NTRU equation");
  if (o.i("raw")) { // the key as generated, in another process
    Req a;
    Rsp b;
    a.n = k->n;
    a.fn = FN_LOAD_RAW;
    a.slot = 3;
    a.in[0] = to_bytes(k->k.f); a.in[1] = to_bytes(k->k.g); a.in[2] = to_bytes(k->k.F); a.in[3] = to_bytes(k->k.G);
    if (!call(fresh(), a, b)) return;
    if (b.ret2 != r.ret2) fail("C05", "matrix-differs", "matrix and tree of the reloaded key differ from those of the generated key");
  }
  nd.slots[o.i("slot")] = o.s("key");
}
void World::op_crash(const Op& o)
{
  node(o.i("node")).start(); // kill and restart: nothing volatile survives
  count("fault:crash-restart");
  state(99, (uint64_t)o.i("node"));
}

// ------------------------------------------------------------------ signing
void World::check_signature(const Op& o, KeyRec& k, const bytes& msg, const Req& q, const Rsp& r, const char* route)
{
  const bytes& sig = r.out[0];
  const std::string rt = route;
  // C12: the specification's function of key, message and stream
  bytes want;
  ref::SignInfo si;
  const bool have = ref::sign(k.k, msg, r.stream, want, si, 4000);
  if (si.attempts > 1) count("multi-attempt-signatures");
  count("sign-attempts", (uint64_t)si.attempts);
  if (!si.ambiguous && !si.norm_edge) {
    count("compared-with-reference");
    if (si.under) fail("C12", "stream-short", rt + ": the specification needs more random bytes than were drawn");
    else if (!have) fail("C12", "no-reference", rt + ": the reference found no signature");
    else if (want != sig) {
      std::string d = want.size() != sig.size() ? "length" : memcmp(want.data(), sig.data(), 41) ? "header or salt" : "body";
      fail("C12", "differs", rt + ": signature differs from the specification's in its " + d + " (attempts " + std::to_string(si.attempts) + ", too long " + std::to_string(si.too_long) + ", not fitting " + std::to_string(si.no_fit) + ")");
    } else if (si.used != r.stream.size()) fail("C12", "consumption", rt + ": drew " + std::to_string(r.stream.size()) + " random bytes, the specification uses " + std::to_string(si.used));
  } else count("ambiguous-skipped");
  // C01
  Req v;
  Rsp vr;
  v.n = k.n;
  v.fn = FN_VERIFY;
  v.in[0] = k.pk;
  v.in[1] = msg;
  v.in[2] = sig;
  v.amb = q.amb;
  if (!call(node(1), v, vr, NONE, "verifier")) return;
  ref::VInfo vi;
  const bool rv = ref::verify(k.n, k.pk, msg, sig, &vi);
  if (!vr.ret) fail("C01", "does-not-verify", rt + ": the signature is rejected by verification (norm " + std::to_string(vi.norm) + ")");
  else if (!rv) fail("C01", "not-a-signature", rt + ": the signature is not valid by the specification (norm " + std::to_string(vi.norm) + ")");
  if (!rv) fail("C05", "other-key", rt + ": a signature made with the reloaded key is not one of the stored public key");
  if ((vr.ret != 0) != rv) fail("C02", rv ? "rejects-valid" : "accepts-invalid", "verification disagrees with the specification on a produced signature");
  // C15
  if (!q.st.prefix.empty() && o.i("nosalt")) return;
  bytes salt(sig.begin() + 1, sig.begin() + 41);
  auto it = std::search(r.stream.begin(), r.stream.end(), salt.begin(), salt.end());
  if (it == r.stream.end()) fail("C15", "salt-not-drawn", rt + ": the 40 salt bytes were not drawn from the generator in this call");
  if (q.st.prefix.empty()) {
    auto [p, fresh_] = salts.insert({ salt, o.str() });
    if (!fresh_) fail("C15", "salt-reused", rt + ": salt already used by [" + p->second.substr(0, 120) + "]");
  }
}
void World::op_sign(const Op& o)
{
  KeyRec* k = key(o);
  if (!k) return;
  Node& nd = node(o.i("node"));
  const std::string route = o.s("route", "sk");
  const bytes msg = make_msg(o.u("len"), o.u("mseed"));
  Req q;
  Rsp r;
  q.n = k->n;
  ambient(o, q);
  q.in[1] = msg;
  q.st.record = 1;
  if (o.has("steer")) {
    std::vector<std::string> done;
    q.st.prefix = steer_sign(*k, msg, o.s("steer"), o.u("sseed"), &done);
    for (auto& d : done) note("steered attempt " + d);
  }
  if (o.has("pat")) { // a stretch of constant output
    q.st.pat = unhex(o.s("pat"));
    q.st.pat_len = o.u("patlen");
    count("fault:rng-stuck-pattern");
  }
  if (o.has("stop")) q.st.stop_at = o.u("stop");
  if (o.has("crash")) q.crash_edge = o.u("crash");
  if (route == "sk") {
    q.fn = FN_SIGN_SK;
    q.in[0] = k->sk;
    q.ent = entropy(o);
  } else {
    q.fn = FN_SIGN_BT;
    q.slot = o.i("slot");
    q.rslot = o.i("rslot");
    if (!nd.alive()) return;
    auto it = nd.slots.find(q.slot);
    if (it == nd.slots.end() || it->second != o.s("key")) return;
    if (!nd.rngs.count(q.rslot)) return;
  }
  if (o.i("live")) {
    const uint64_t hb = honest("sign", k->n);
    q.budget = 60 * hb + 60 * (q.st.prefix.size() + q.st.pat_len) + 40 * msg.size();
  }
  const bool ok = call(nd, q, r, EXC | CRASH, "signer");
  if (r.status == ST_EXC && !r.stop_fired && !r.fail_fired) { fail("*", "exception:sign", "signing threw: " + r.what); return; }
  if (!ok) {
    if (r.status == ST_EXC && r.fail_fired && r.out_touched) fail("C07", "output-touched", "a failed call changed its output buffer");
    return;
  }
  if (r.fail_fired) { fail("C07", "returned-normally", "signing returned normally although seeding failed"); return; }
  if (!r.ret) {
    fail("C05", "refused", "signing with a valid stored key was refused");
    fail("C12", "refused", "signing with a valid key was refused");
    fail("C13", "refused", "signing with a valid key was refused");
    return;
  }
  check_signature(o, *k, msg, q, r, route == "sk" ? "one-shot" : "matrix and tree");
  if (o.has("id")) sigs[o.s("id")] = SigRec{ k->n, o.s("key"), msg, r.out[0], true };
  if (o.i("twin") && !vio) { // the other route, from the key as it was generated, same random bytes
    Req a;
    Rsp b;
    a.n = k->n;
    Node& t = fresh();
    if (route == "sk") {
      a.fn = FN_LOAD_RAW;
      a.slot = 2;
      a.in[0] = to_bytes(k->k.f); a.in[1] = to_bytes(k->k.g); a.in[2] = to_bytes(k->k.F); a.in[3] = to_bytes(k->k.G);
      if (!call(t, a, b)) return;
      Req g;
      g.fn = FN_RNG_NEW;
      g.rslot = 1;
      g.ent.seed = 999;
      if (!call(t, g, b)) return;
      a = Req{};
      a.n = k->n;
      a.fn = FN_SIGN_BT;
      a.slot = 2;
      a.rslot = 1;
    } else {
      a.fn = FN_SIGN_SK;
      a.in[0] = k->sk;
    }
    a.in[1] = msg;
    a.st.prefix = r.stream;
    if (!call(t, a, b, NONE, "twin")) return;
    if (b.out[0] != r.out[0]) fail("C05", "routes-differ", "stored and original key give different signatures for the same message and random bytes");
    count("twin-signatures");
  }
}

// ------------------------------------------------------------------ the network
bytes World::mutate_sig(const bytes& sig, const std::string& fault, Rng& r, const bytes* other)
{
  bytes s = sig;
  if (fault == "flip") s[r.below(s.size())] ^= (uint8_t)(1u << r.below(8));
  else if (fault == "flipbody") s[41 + r.below(s.size() - 41)] ^= (uint8_t)(1u << r.below(8));
  else if (fault == "fliptail") s[s.size() - 1 - r.below(8)] ^= (uint8_t)(1u << r.below(8));
  else if (fault == "flips") { for (uint64_t i = 0, m = 2 + r.below(30); i < m; i++) s[r.below(s.size())] ^= (uint8_t)(1u << r.below(8)); }
  else if (fault == "byte") s[r.below(s.size())] = (uint8_t)r.next();
  else if (fault == "zero") { size_t a = (size_t)r.below(s.size()), l = 1 + (size_t)r.below(64); for (size_t i = a; i < std::min(a + l, s.size()); i++) s[i] = 0; }
  else if (fault == "ones") { size_t a = (size_t)r.below(s.size()), l = 1 + (size_t)r.below(64); for (size_t i = a; i < std::min(a + l, s.size()); i++) s[i] = 0xff; }
  else if (fault == "trunc") { size_t a = (size_t)r.below(s.size()); for (size_t i = a; i < s.size(); i++) s[i] = 0; }
  else if (fault == "hdr") s[0] = r.below(2) ? (uint8_t)r.next() : (uint8_t)(s[0] ^ (1u << r.below(8)));
  else if (fault == "salt") s[1 + r.below(40)] ^= (uint8_t)(1 + r.below(255));
  else if (fault == "swapsalt" && other) std::copy(other->begin() + 1, other->begin() + 41, s.begin() + 1);
  else if (fault == "splice" && other) { size_t a = 41 + (size_t)r.below(s.size() - 41); std::copy(other->begin() + (long)a, other->end(), s.begin() + (long)a); }
  else if (fault == "replay" && other) s = *other;
  else if (fault == "coef" || fault == "neg" || fault == "negzero" || fault == "unary" || fault == "padbit" || fault == "short") {
    const int n = s[0] == 0x39 ? 512 : 1024;
    ref::ivec v;
    if (!ref::decompress(n, s.data() + 41, v)) return s;
    size_t i = (size_t)r.below(v.size());
    if (fault == "negzero" && r.below(3) == 0) i = v.size() - 1 - (r.below(2) ? 0 : r.below(8));
    if (fault == "coef") v[i] += (int)r.range(-3, 3);
    else if (fault == "neg") v[i] = -v[i];
    else if (fault == "unary") v[i] += (int)(r.below(2) ? 128 : -128) * (int)(1 + r.below(20));
    std::string bits;
    for (size_t j = 0; j < v.size(); j++) {
      if (fault == "short" && j == v.size() - 1) break;
      int x = v[j];
      const unsigned a = (unsigned)std::abs(x);
      const bool nz = fault == "negzero" && j == i;
      bits += nz ? '1' : x < 0 ? '1' : '0';
      for (int b = 6; b >= 0; b--) bits += nz ? '0' : ((a >> b) & 1) ? '1' : '0';
      if (!nz) bits += std::string(a >> 7, '0');
      bits += '1';
    }
    const size_t room = (s.size() - 41) * 8;
    if (fault == "padbit" && bits.size() < room) { bits += std::string(room - bits.size(), '0'); size_t used = ref::compressed_bits(v); bits[used + (size_t)r.below(room - used)] = '1'; }
    bits.resize(room, '0');
    for (size_t b = 0; b < room; b += 8) { unsigned c = 0; for (size_t k = 0; k < 8; k++) c = c * 2 + (bits[b + k] == '1'); s[41 + b / 8] = (uint8_t)c; }
  }
  return s;
}
void World::op_deliver(const Op& o)
{
  auto it = sigs.find(o.s("sig"));
  SigRec sr;
  KeyRec* k;
  if (o.has("fix")) { // a signature made by an earlier build
    k = key(o);
    if (!k) return;
    FixKey& f = fx.key(k->n, (size_t)o.u("fix"));
    auto& p = f.sigs[o.u("no") % f.sigs.size()];
    sr = SigRec{ k->n, o.s("key"), p.first, p.second, true };
  } else {
    if (it == sigs.end()) return;
    sr = it->second;
    auto kt = keys.find(sr.key);
    if (kt == keys.end()) return;
    k = &kt->second;
  }
  Rng r(o.u("seed") ^ 0xde11);
  bytes pk = k->pk, msg = sr.msg, sig = sr.sig;
  const std::string fault = o.s("fault", "none");
  if (fault == "msgflip") { if (!msg.empty()) msg[r.below(msg.size())] ^= (uint8_t)(1u << r.below(8)); else msg.push_back(0); }
  else if (fault == "msgappend") msg.push_back((uint8_t)r.next());
  else if (fault == "msgtrunc") { if (!msg.empty()) msg.pop_back(); }
  else if (fault == "msgother") msg = r.blob(r.below(200));
  else if (fault == "pkflip") pk[r.below(pk.size())] ^= (uint8_t)(1u << r.below(8));
  else if (fault == "pkunred") { // a coefficient written as itself plus q
    ref::ivec hh = k->k.h;
    size_t i = (size_t)r.below(hh.size());
    for (size_t c = 0; c < hh.size() && hh[i] + ref::Q >= 16384; c++) i = (i + 1) % hh.size();
    if (hh[i] + ref::Q < 16384) { hh[i] += ref::Q; pk = ref::encode_pk(k->n, hh); }
  } else if (fault == "otherpk") pk = fx.key(k->n, (size_t)r.below(64)).pk;
  else if (fault != "none") {
    bytes other;
    const bytes* po = nullptr;
    auto ot = sigs.find(o.s("other"));
    if (ot != sigs.end() && ot->second.n == sr.n) po = &ot->second.sig;
    else { auto& f = fx.key(k->n, (size_t)r.below(64)); other = f.sigs[0].second; po = &other; }
    sig = mutate_sig(sig, fault, r, po);
  }
  count("fault:net-" + fault);
  if (o.i("dup")) count("fault:net-duplicate");
  Req q;
  Rsp rr;
  q.n = k->n;
  ambient(o, q);
  q.in[1] = msg;
  q.in[2] = sig;
  ref::VInfo vi;
  const bool want = ref::verify(k->n, pk, msg, sig, &vi);
  if (o.s("via") == "h") {
    ref::ivec hh;
    if (!ref::decode_pk(k->n, pk, hh)) return;
    q.fn = FN_VERIFY_H;
    q.slot = -1;
    q.in[0] = to_u16(hh);
  } else {
    q.fn = FN_VERIFY;
    q.in[0] = pk;
  }
  if (!call(node(1), q, rr, NONE, "verifier")) return;
  if ((rr.ret != 0) != want)
    fail("C02", want ? "rejects-valid" : "accepts-invalid", "fault " + fault + ": verification returned " + (rr.ret ? "true" : "false") + ", the specification says " + (want ? "valid" : "invalid") + " (norm " + std::to_string(vi.norm) + ", pk " + (vi.pk_ok ? "ok" : "malformed") + ", signature " + (vi.sig_ok ? "ok" : "malformed") + ")");
  if (fault == "none" && !rr.ret) fail(o.has("fix") ? "C05" : "C01", "does-not-verify", o.has("fix") ? "a signature by an earlier build no longer verifies" : "a delivered signature was rejected");
  if (rr.ret && !(vi.pk_ok && vi.sig_ok)) fail("C04", "accepts-non-canonical", "fault " + fault + ": a non-canonical byte form was accepted");
}
// a signature built without a key: any exact norm
void World::op_craft(const Op& o)
{
  const int n = (int)o.i("n", 512);
  Rng r(o.u("seed") ^ 0xc4af7);
  const auto& P = ref::P(n);
  const bytes msg = make_msg(o.u("len", 20), o.u("seed"));
  bytes salt = r.blob(40);
  const std::string style = o.s("style", "gauss");
  int64_t target = P.beta2 + o.i("delta", 0) + o.i("wrap", 0) * (int64_t)4294967296ll;
  ref::ivec s1((size_t)n), s2((size_t)n), inv;
  int tries = 0;
  do {
    for (auto& x : s2) x = (int)lround(r.gauss() * 160);
    if (style == "sparse") { for (auto& x : s2) x = 0; for (int i = 0; i < 5; i++) s2[(size_t)r.below((uint64_t)n)] = (int)r.range(-3, 3); s2[0] = 1; }
    if (style == "huge") { // few very large coefficients
      for (auto& x : s2) x = (int)r.range(-20, 20);
      int64_t room = (int64_t)(P.siglen - 41) * 8 - 9 * n - 5;
      while (room > 8) { int64_t u = std::min<int64_t>(room, 8 + (int64_t)r.below((uint64_t)std::max<int64_t>(1, o.i("units", 40)))); s2[(size_t)r.below((uint64_t)n)] = (int)((u - 1) * 128 + (int64_t)r.below(128)) * (r.below(2) ? 1 : -1); room -= u; if (r.below(4) == 0) break; }
    }
    if (style == "mid") { for (auto& x : s2) x = (int)r.range(-60, 60); s2[(size_t)r.below((uint64_t)n)] = (int)r.range(900, 2300) * (r.below(2) ? 1 : -1); }
    if (++tries > 60) return;
  } while (!ref::invq(s2, inv) || ref::compressed_bits(s2) > (P.siglen - 41) * 8);
  int64_t left = target;
  for (int x : s2) left -= (int64_t)x * x;
  std::vector<size_t> order((size_t)n);
  for (size_t i = 0; i < order.size(); i++) order[i] = i;
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[(size_t)r.below(i)]);
  size_t at = 0;
  const int64_t edge = o.i("edge", 0); // that many coefficients of s1 at +-6144
  for (int64_t e = 0; e < edge && at < order.size() && left >= 6144ll * 6144; e++) { s1[order[at++]] = r.below(2) ? 6144 : -6144; left -= 6144ll * 6144; }
  if (left > 0) {
    // random part, then greedy squares
    double sd = sqrt(std::max(0.0, (double)left * 0.9 / (double)(n - (int)at)));
    for (; at + 40 < order.size() && sd >= 1; at++) {
      int64_t v = lround(r.gauss() * std::min(sd, 6144.0));
      v = std::max<int64_t>(-6144, std::min<int64_t>(6144, v));
      if (v * v > left) v = 0;
      s1[order[at]] = (int)v;
      left -= v * v;
    }
    for (; at < order.size() && left > 0; at++) {
      int64_t v = (int64_t)sqrtl((long double)left);
      while (v * v > left) v--;
      while ((v + 1) * (v + 1) <= left) v++;
      v = std::min<int64_t>(v, 6144);
      s1[order[at]] = (int)(r.below(2) ? v : -v);
      left -= v * v;
    }
    // still too much: raise the rest to the maximum
    for (size_t i = 0; i < order.size() && left > 0; i++) {
      int64_t v = s1[order[i]];
      int64_t w = (int64_t)sqrtl((long double)(left + v * v));
      while (w * w > left + v * v) w--;
      w = std::min<int64_t>(w, 6144);
      left -= w * w - v * v;
      s1[order[i]] = (int)(v < 0 ? -w : w);
    }
  }
  ref::ivec c = ref::hash_to_point(n, salt.data(), msg), d((size_t)n);
  for (size_t i = 0; i < d.size(); i++) d[i] = ((c[i] - s1[i]) % ref::Q + ref::Q) % ref::Q;
  ref::ivec hh = ref::mulq(d, inv);
  bytes body;
  if (!ref::compress(n, s2, body)) return;
  bytes sig = ref::make_sig(n, salt.data(), body), pk = ref::encode_pk(n, hh);
  ref::VInfo vi;
  const bool want = ref::verify(n, pk, msg, sig, &vi);
  count(left == 0 ? (vi.norm == target ? "crafted-exact" : "crafted-inexact") : "crafted-partial");
  count("fault:forged-signature");
  Req q;
  Rsp rr;
  q.n = n;
  ambient(o, q);
  q.in[1] = msg;
  q.in[2] = sig;
  for (int via = 0; via < 2; via++) {
    q.fn = via ? FN_VERIFY_H : FN_VERIFY;
    q.slot = -1;
    q.in[0] = via ? to_u16(hh) : pk;
    if (!call(node(1), q, rr, NONE, "verifier")) return;
    if ((rr.ret != 0) != want)
      fail("C02", want ? "rejects-valid" : "accepts-invalid", "crafted signature of squared norm " + std::to_string(vi.norm) + " (bound " + std::to_string(P.beta2) + "): verification returned " + (rr.ret ? "true" : "false"));
  }
}

// ------------------------------------------------------------------ encodings
void World::op_codec(const Op& o)
{
  const int n = (int)o.i("n", 512);
  const auto& P = ref::P(n);
  Rng r(o.u("seed") ^ 0xc0dec);
  const std::string what = o.s("what"), style = o.s("style", "uniform");
  Node& nd = node(0);
  Req q;
  Rsp a, b;
  q.n = n;
  ambient(o, q);
  auto poly = [&](int lo, int hi) {
    ref::ivec v((size_t)n);
    for (auto& x : v) {
      if (style == "extreme") x = r.below(2) ? lo : hi;
      else if (style == "sparse") x = r.below(40) ? 0 : (int)r.range(lo, hi);
      else if (style == "near") x = r.below(3) == 0 ? lo + (int)r.below(3) : r.below(2) ? hi - (int)r.below(3) : (int)r.range(-2, 2);
      else x = (int)r.range(lo, hi);
      x = std::max(lo, std::min(hi, x));
    }
    return v;
  };
  if (what == "pk") {
    ref::ivec hh = poly(0, ref::Q - 1);
    bytes enc = ref::encode_pk(n, hh);
    q.fn = FN_ENC_PK;
    const bytes a_in = to_u16(hh);
    q.in[0] = a_in;
    if (!call(nd, q, a)) return;
    if (a.out[0] != enc) { fail("C04", "pk-encode", "public key encoding differs from the format"); return; }
    q.fn = FN_DEC_PK;
    q.in[0] = enc;
    if (!call(nd, q, b)) return;
    if (!b.ret || b.out[0] != a_in) { fail("C04", "pk-roundtrip", "public key does not survive encoding and decoding"); fail("C05", "pk-roundtrip", "a stored public key does not decode to the polynomial it was made of"); }
  } else if (what == "sk") {
    const int l = n == 512 ? 31 : 15;
    ref::ivec f = poly(-l, l), g = poly(-l, l), F = poly(-127, 127);
    q.fn = FN_ENC_SK;
    q.in[0] = to_bytes(f); q.in[1] = to_bytes(g); q.in[2] = to_bytes(F);
    if (!call(nd, q, a)) return;
    if (a.out[0] != ref::encode_sk(n, f, g, F)) { fail("C04", "sk-encode", "secret key encoding differs from the format"); return; }
    q.in[0] = a.out[0];
    q.fn = FN_DEC_SK;
    if (!call(nd, q, b)) return;
    if (!b.ret || to_ivec(b.out[0]) != f || to_ivec(b.out[1]) != g || to_ivec(b.out[2]) != F) {
      fail("C04", "sk-roundtrip", "secret key does not survive encoding and decoding");
      fail("C05", "sk-roundtrip", "a stored secret key does not decode to the polynomials it was made of");
    }
  } else if (what == "sig") {
    ref::ivec v((size_t)n);
    const size_t room = (P.siglen - 41) * 8;
    if (style == "extreme" || style == "fit") {
      for (auto& x : v) x = (int)lround(r.gauss() * 60);
      int64_t need = std::max((int64_t)room + o.i("delta", 0), (int64_t)n * 9 + 8) - (int64_t)ref::compressed_bits(v);
      while (need != 0) {
        size_t i = (size_t)r.below(v.size());
        int64_t u = need > 0 ? std::min<int64_t>(need, 1 + (int64_t)r.below(need > 40 && style == "extreme" ? 30 : 2)) : -1;
        int s = v[i] < 0 ? -1 : 1;
        int m = std::abs(v[i]) + 128 * (int)u;
        if (m < 0) continue;
        v[i] = s * m;
        need -= u;
      }
      // last coefficient may carry the long run
      if (style == "extreme" && r.below(2)) { size_t i = (size_t)(std::max_element(v.begin(), v.end(), [](int x, int y) { return std::abs(x) < std::abs(y); }) - v.begin()); std::swap(v[i], v.back()); }
    } else if (style == "sparse") { for (auto& x : v) x = r.below(10) ? 0 : (int)r.range(-200, 200); }
    else if (style == "near") { for (auto& x : v) x = (int)(128 * r.below(2)) * (r.below(2) ? 1 : -1) + (int)r.range(-1, 1); }
    else if (style == "over") { for (auto& x : v) x = (int)r.range(-12288, 12288); }
    else for (auto& x : v) x = (int)lround(r.gauss() * (double)r.range(100, 240));
    bytes body;
    const bool fits = ref::compress(n, v, body);
    q.fn = FN_ENC_SIG;
    q.in[0] = to_bytes(v);
    if (!call(nd, q, a)) return;
    count(fits ? "codec-sig-fits" : "codec-sig-too-long");
    if ((a.ret != 0) != fits) { fail("C04", "sig-fit", "compression reported " + std::string(a.ret ? "success" : "failure") + " for " + std::to_string(ref::compressed_bits(v)) + " bits in " + std::to_string(room)); return; }
    if (fits) {
      if (!std::equal(body.begin(), body.end(), a.out[0].begin() + 41)) { fail("C04", "sig-encode", "compressed signature differs from the format"); return; }
      q.fn = FN_DEC_SIG;
      q.in[0] = ref::make_sig(n, r.blob(40).data(), body);
      if (!call(nd, q, b)) return;
      if (!b.ret) fail("C04", "sig-refused", "a canonical signature encoding of " + std::to_string(ref::compressed_bits(v)) + " bits in " + std::to_string(room) + " was refused");
      else if (to_ivec(b.out[0]) != v) fail("C04", "sig-roundtrip", "a signature polynomial does not survive compression and decompression");
    }
  } else if (what == "decpk") {
    bytes e;
    if (style == "random") { e = r.blob(P.pklen); e[0] = (uint8_t)P.logn; }
    else {
      ref::ivec hh = poly(0, ref::Q - 1);
      e = ref::encode_pk(n, hh);
      if (style == "unred") { for (uint64_t i = 0, m = 1 + r.below(3); i < m; i++) hh[r.below(hh.size())] = (int)r.range(ref::Q, 16383); if (r.below(4) == 0) hh.back() = ref::Q; e = ref::encode_pk(n, hh); }
      else if (style == "edge") { for (int i = 0; i < 3; i++) hh[r.below(hh.size())] = ref::Q - 1 + (int)r.below(2); e = ref::encode_pk(n, hh); }
      else if (style == "hdr") e[0] = r.below(2) ? (uint8_t)(e[0] ^ (1u << r.below(8))) : (uint8_t)r.next();
    }
    ref::ivec hh;
    const bool want = ref::decode_pk(n, e, hh);
    q.fn = FN_DEC_PK;
    q.in[0] = e;
    if (!call(nd, q, a)) return;
    if ((a.ret != 0) != want) fail("C04", want ? "pk-refused" : "pk-accepted", std::string("public key bytes ") + (want ? "in canonical form were refused" : "not in canonical form were accepted"));
    else if (want) {
      if (a.out[0] != to_u16(hh)) fail("C04", "pk-decode", "public key decodes to other coefficients");
      q.fn = FN_ENC_PK;
      q.in[0] = a.out[0];
      if (!call(nd, q, b)) return;
      if (b.out[0] != e) fail("C04", "pk-roundtrip", "accepted public key bytes do not encode back to themselves");
    }
  } else if (what == "decsk") {
    bytes e = r.blob(P.sklen);
    e[0] = (uint8_t)(0x50 | P.logn);
    if (style == "hdr") e[0] = r.below(2) ? (uint8_t)(e[0] ^ (1u << r.below(8))) : (uint8_t)r.next();
    ref::ivec f, g, F;
    auto want = ref::decode_sk(n, e, f, g, F);
    if (style != "minval" && style != "hdr") { // avoid the reserved minimum
      const int mv = n == 512 ? -32 : -16;
      for (auto& x : f) if (x == mv) x = 1;
      for (auto& x : g) if (x == mv) x = 1;
      for (auto& x : F) if (x == -128) x = 1;
      e = ref::encode_sk(n, f, g, F);
      want = ref::SK_OK;
    }
    q.fn = FN_DEC_SK;
    q.in[0] = e;
    if (!call(nd, q, a)) return;
    if (want == ref::SK_BAD && a.ret) fail("C04", "sk-accepted", "secret key bytes with a wrong header were accepted");
    if (want == ref::SK_OK && !a.ret) fail("C04", "sk-refused", "canonical secret key bytes were refused");
    if (a.ret && want != ref::SK_BAD) {
      if (to_ivec(a.out[0]) != f || to_ivec(a.out[1]) != g || to_ivec(a.out[2]) != F) fail("C04", "sk-decode", "secret key decodes to other polynomials");
      else if (want == ref::SK_OK) {
        q.fn = FN_ENC_SK;
        q.in[0] = a.out[0]; q.in[1] = a.out[1]; q.in[2] = a.out[2];
        if (!call(nd, q, b)) return;
        if (b.out[0] != e) fail("C04", "sk-roundtrip", "accepted secret key bytes do not encode back to themselves");
      }
    }
  } else if (what == "decsig") {
    bytes e;
    if (style == "random") { e = r.blob(P.siglen); e[0] = (uint8_t)(0x30 | P.logn); }
    else {
      FixKey& f = fx.key(n, (size_t)r.below(64));
      bytes base = f.sigs[r.below(f.sigs.size())].second;
      if (o.i("fit")) { // start from an encoding that fills the signature
        ref::ivec v;
        ref::decompress(n, base.data() + 41, v);
        if (o.i("last")) v.back() = (int)o.i("last") - 1; // zero or another small coefficient
        int64_t need = (int64_t)(P.siglen - 41) * 8 - (int64_t)ref::compressed_bits(v) - o.i("slack", 0);
        while (need > 0) { int& x = v[r.below(v.size() - (o.i("last") ? 1 : 0))]; x += x < 0 ? -128 : 128; need--; }
        bytes body;
        if (ref::compress(n, v, body)) base = ref::make_sig(n, base.data() + 1, body);
      }
      e = style == "none" ? base : mutate_sig(base, style, r, nullptr);
    }
    ref::ivec v;
    const bool hdr = e[0] == (0x30 | P.logn);
    const bool want = ref::decompress(n, e.data() + 41, v);
    q.fn = FN_DEC_SIG;
    q.in[0] = e;
    if (!call(nd, q, a)) return;
    (void)hdr; // decompress_sig does not look at the header
    if ((a.ret != 0) != want) fail("C04", want ? "sig-refused" : "sig-accepted", std::string("signature bytes ") + (want ? "in canonical form were refused" : "not in canonical form were accepted") + " (" + style + ")");
    else if (want) {
      if (to_ivec(a.out[0]) != v) fail("C04", "sig-decode", "signature decompresses to other coefficients");
      q.fn = FN_ENC_SIG;
      q.in[0] = a.out[0];
      if (!call(nd, q, b)) return;
      if (!b.ret || !std::equal(b.out[0].begin() + 41, b.out[0].end(), e.begin() + 41)) fail("C04", "sig-roundtrip", "accepted signature bytes do not encode back to themselves");
    }
    count("fault:bytes-" + style);
  }
}
// bit order of the key fields against the specification's (most significant first)
void World::op_spec(const Op& o)
{
  const int n = (int)o.i("n", 512);
  Rng r(o.u("seed") ^ 0x5bec);
  Node& nd = node(0);
  Req q;
  Rsp a;
  q.n = n;
  auto pack = [](const ref::ivec& v, int bits, bytes& out) {
    std::string b;
    for (int x : v) for (int i = bits - 1; i >= 0; i--) b += ((x >> i) & 1) ? '1' : '0';
    for (size_t i = 0; i < b.size(); i += 8) { unsigned c = 0; for (size_t j = 0; j < 8; j++) c = 2 * c + (b[i + j] == '1'); out.push_back((uint8_t)c); }
  };
  if (o.s("what") == "pk") {
    ref::ivec hh((size_t)n);
    for (auto& x : hh) x = (int)r.below(ref::Q);
    q.fn = FN_ENC_PK;
    q.in[0] = to_u16(hh);
    if (!call(nd, q, a)) return;
    bytes want{ (uint8_t)ref::P(n).logn };
    pack(hh, 14, want);
    if (a.out[0] != want) fail("C04", "spec-bit-order:pk", "public key coefficients are packed least significant bit first, the specification packs them most significant bit first");
  } else {
    const int l = n == 512 ? 31 : 15;
    ref::ivec f((size_t)n), g((size_t)n), F((size_t)n);
    for (auto* v : { &f, &g }) for (auto& x : *v) x = (int)r.range(-l, l);
    for (auto& x : F) x = (int)r.range(-127, 127);
    q.fn = FN_ENC_SK;
    q.in[0] = to_bytes(f); q.in[1] = to_bytes(g); q.in[2] = to_bytes(F);
    if (!call(nd, q, a)) return;
    bytes want{ (uint8_t)(0x50 | ref::P(n).logn) };
    pack(f, ref::P(n).fgbits, want);
    pack(g, ref::P(n).fgbits, want);
    pack(F, 8, want);
    if (a.out[0] != want) fail("C04", "spec-bit-order:sk", "secret key coefficients are packed least significant bit first, the specification packs them most significant bit first");
  }
}
// keys and signatures of earlier builds
void World::op_old(const Op& o)
{
  const int n = (int)o.i("n", 512);
  FixKey& f = fx.key(n, (size_t)o.u("fix"));
  Node& nd = node(o.i("node"));
  Req q;
  Rsp r;
  q.n = n;
  ambient(o, q);
  q.fn = FN_DEC_SK;
  q.in[0] = f.sk;
  if (!call(nd, q, r)) return;
  if (!r.ret) { fail("C05", "refused", "a secret key stored by an earlier build is refused"); return; }
  if (to_ivec(r.out[0]) != f.k.f || to_ivec(r.out[1]) != f.k.g || to_ivec(r.out[2]) != f.k.F) { fail("C05", "decode", "a secret key stored by an earlier build decodes to other polynomials"); return; }
  q.fn = FN_ENC_SK;
  q.in[0] = r.out[0]; q.in[1] = r.out[1]; q.in[2] = r.out[2];
  if (!call(nd, q, r)) return;
  if (r.out[0] != f.sk) { fail("C05", "stored-form", "a reloaded secret key is stored in another form than by earlier builds"); return; }
  q.fn = FN_RECOMP_G;
  q.in[0] = to_bytes(f.k.f); q.in[1] = to_bytes(f.k.g); q.in[2] = to_bytes(f.k.F);
  if (!call(nd, q, r)) return;
  if (to_ivec(r.out[0]) != f.k.G) { fail("C05", "recompute-G", "the recomputed G does not complete the NTRU equation"); return; }
  q.fn = FN_DEC_PK;
  q.in[0] = f.pk;
  if (!call(nd, q, r)) return;
  if (!r.ret) { fail("C05", "refused", "a public key stored by an earlier build is refused"); return; }
  q.fn = FN_ENC_PK;
  q.in[0] = r.out[0];
  if (!call(nd, q, r)) return;
  if (r.out[0] != f.pk) { fail("C05", "stored-form", "a reloaded public key is stored in another form than by earlier builds"); return; }
  q.fn = FN_VERIFY;
  for (auto& s : f.sigs) {
    q.in[0] = f.pk; q.in[1] = s.first; q.in[2] = s.second;
    if (!call(nd, q, r)) return;
    if (!r.ret) { fail("C05", "does-not-verify", "a signature made by an earlier build no longer verifies"); return; }
  }
}
