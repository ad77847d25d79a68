// Histories, concurrent blocks, hostile bytes, entropy faults, the sampler and
// damaged keys.
#include "seam.hpp"
#include "world.hpp"
#include <algorithm>
#include <array>
#include <bit>
#include <cmath>
#include <csignal>
#include <cstring>
#include <unordered_map>

static ref::real hexd(const std::string& s) { return (ref::real)strtod(s.c_str(), nullptr); }

// ------------------------------------------------------------------ units
// <kind><n>/<args>:
//   S/key/len/mseed/ent[/stop]   one-shot signature (aborted after stop random bytes)
//   B/key/len/mseed/ent          new generator, signature from a shared matrix and tree
//   b/key/len/mseed              signature with the caller's long-lived generator
//   V/key/sig/mut  v/key/sig/mut verification from bytes / from decoded h
//   L/key  P/key  D/key  E/key   load key; decode pk; decode sk; decompress + compress
//   G/key  Q/key  q/key          recompute G; encode sk; encode pk
//   H/key/len/mseed/ent          one-shot signature with a refused key (bad header)
//   K/key/ent                    key generation steered to accept that pair
//   R/len/ent                    generator output
//   F/key/ent/word               one-shot signature, entropy source fails
//   X/key/seed                   malformed public key / signature
//   Z/mu/sigma/seed              integer sampler
std::vector<Req> World::unit(const std::string& full, int th, std::vector<Req>& pre, std::set<std::string>& have)
{
  // "<operation>~<input>:<position>:<xor>": the same call, except for one byte of one input
  const size_t tw = full.find('~');
  if (tw != std::string::npos) {
    auto d = split(full.substr(tw + 1), ':');
    auto out = unit(full.substr(0, tw), th, pre, have);
    if (d.size() < 3 || out.empty() || !strchr("SBbVvWLPDEH", full[0])) return out;
    bytes& in = out[0].in[(size_t)atoi(d[0].c_str()) % 3];
    for (auto& q : out) if (q.fn != FN_RNG_NEW && &q != &out[0] && out[0].fn == FN_RNG_NEW) { bytes& i2 = q.in[(size_t)atoi(d[0].c_str()) % 3]; if (!i2.empty()) i2[strtoull(d[1].c_str(), nullptr, 0) % i2.size()] ^= (uint8_t)atoi(d[2].c_str()); }
    if (out[0].fn != FN_RNG_NEW && !in.empty()) in[strtoull(d[1].c_str(), nullptr, 0) % in.size()] ^= (uint8_t)atoi(d[2].c_str());
    return out;
  }
  const std::string& spec = full;
  auto t = split(spec, '/');
  std::vector<Req> out;
  if (t.empty() || t[0].size() < 2) return out;
  const char kd = t[0][0];
  const int n = atoi(t[0].c_str() + 1);
  if (n != 512 && n != 1024) return out;
  auto arg = [&](size_t i) { return i < t.size() ? strtoull(t[i].c_str(), nullptr, 0) : 0ull; };
  FixKey& k = fx.key(n, (size_t)arg(1));
  const size_t ki = (size_t)(arg(1) % fx.keys[n == 1024].size());
  Req q;
  q.n = n;
  const int64_t fresh_rng = 2 * th, long_rng = 2 * th + 1;
  auto shared = [&]() -> int64_t {
    const int64_t slot = (int64_t)((ki * 2 + (n == 1024)) % 12);
    const std::string id = "slot" + std::to_string(slot) + ":" + std::to_string(n) + ":" + std::to_string(ki);
    if (have.insert(id).second) {
      Req l;
      l.n = n;
      l.fn = FN_LOAD;
      l.slot = slot;
      l.in[0] = k.sk;
      pre.push_back(l);
    }
    return slot;
  };
  if (strchr("SBbHW", kd)) q.in[1] = make_msg(std::min<unsigned long long>(arg(2), 200000), arg(3));
  switch (kd) {
    case 'S':
      q.fn = FN_SIGN_SK;
      q.in[0] = k.sk;
      q.ent.seed = arg(4);
      q.st.record = 1;
      q.st.stop_at = arg(5);
      out.push_back(q);
      break;
    case 'B': {
      Req g;
      g.fn = FN_RNG_NEW;
      g.rslot = fresh_rng;
      g.ent.seed = arg(4);
      out.push_back(g);
      q.fn = FN_SIGN_BT;
      q.slot = shared();
      q.rslot = fresh_rng;
      q.st.record = 1;
      out.push_back(q);
      break;
    }
    case 'b': {
      if (have.insert("rng" + std::to_string(long_rng)).second) {
        Req g;
        g.fn = FN_RNG_NEW;
        g.rslot = long_rng;
        g.ent.seed = 4242 + (uint64_t)th;
        pre.push_back(g);
      }
      q.fn = FN_SIGN_BT;
      q.slot = shared();
      q.rslot = long_rng;
      q.st.record = 1;
      out.push_back(q);
      break;
    }
    case 'V': case 'v': {
      auto& s = k.sigs[arg(2) % k.sigs.size()];
      q.in[1] = s.first;
      q.in[2] = s.second;
      if (arg(3)) { Rng r(arg(3)); static const char* m[] = { "flip", "flipbody", "coef", "zero", "hdr", "unary", "salt" }; q.in[2] = mutate_sig(q.in[2], m[r.below(7)], r, nullptr); }
      if (kd == 'V') { q.fn = FN_VERIFY; q.in[0] = k.pk; }
      else { q.fn = FN_VERIFY_H; q.slot = -1; q.in[0] = to_u16(k.k.h); }
      out.push_back(q);
      break;
    }
    case 'W': { // a signature of the reference's making, over a message of any length
      Rng r(arg(4) ^ 0x57);
      ref::SignInfo si;
      q.fn = FN_VERIFY;
      q.in[0] = k.pk;
      if (!ref::sign(k.k, q.in[1], r.blob(60000), q.in[2], si)) q.in[2] = k.sigs[0].second;
      out.push_back(q);
      break;
    }
    case 'L':
      q.in[1].clear();
      q.fn = FN_LOAD;
      q.slot = 12 + th;
      q.in[0] = k.sk;
      out.push_back(q);
      break;
    case 'P': case 'D':
      q.in[1].clear();
      q.fn = kd == 'P' ? FN_DEC_PK : FN_DEC_SK;
      q.in[0] = kd == 'P' ? k.pk : k.sk;
      out.push_back(q);
      break;
    case 'E': {
      q.in[1].clear();
      auto& s = k.sigs[arg(2) % k.sigs.size()];
      q.fn = FN_DEC_SIG;
      q.in[0] = s.second;
      out.push_back(q);
      ref::ivec v;
      ref::decompress(n, s.second.data() + 41, v);
      q.fn = FN_ENC_SIG;
      q.in[0] = to_bytes(v);
      out.push_back(q);
      break;
    }
    case 'G': case 'Q':
      q.in[1].clear();
      q.fn = kd == 'G' ? FN_RECOMP_G : FN_ENC_SK;
      q.in[0] = to_bytes(k.k.f);
      q.in[1] = to_bytes(k.k.g);
      q.in[2] = to_bytes(k.k.F);
      out.push_back(q);
      break;
    case 'q':
      q.in[1].clear();
      q.fn = FN_ENC_PK;
      q.in[0] = to_u16(k.k.h);
      out.push_back(q);
      break;
    case 'H':
      q.fn = FN_SIGN_SK;
      q.in[0] = k.sk;
      q.in[0][0] ^= 0x20;
      q.ent.seed = arg(4);
      out.push_back(q);
      break;
    case 'K': {
      q.in[1].clear();
      q.fn = FN_KEYGEN;
      q.ent.seed = arg(2);
      Rng r(arg(2) ^ 0x4b);
      q.st.prefix = pair_bytes(n, k.k.f, k.k.g, r);
      q.budget = n == 512 ? 2000000000ull : 9000000000ull;
      out.push_back(q);
      break;
    }
    case 'R': {
      Req g;
      g.fn = FN_RNG_NEW;
      g.rslot = fresh_rng;
      g.ent.seed = arg(2);
      out.push_back(g);
      q.in[1].clear();
      q.fn = FN_RNG_READ;
      q.rslot = fresh_rng;
      q.a = (int64_t)(arg(1) % 100000);
      out.push_back(q);
      break;
    }
    case 'A': // key generation that ends with an exception out of the random bytes, or of the entropy source
      q.in[1].clear();
      q.fn = FN_KEYGEN;
      q.ent.seed = arg(2);
      q.st.stop_at = 1 + arg(3);
      if (arg(4)) { q.ent.fail_word = (int64_t)arg(4) - 1; q.ent.fail_count = 1000000; }
      if (arg(3) % 3 == 0) { Rng r(arg(2) ^ 0x4b); q.st.prefix = pair_bytes(n, ref::ivec((size_t)n, 0), k.k.g, r); } // a candidate to refuse comes first
      out.push_back(q);
      break;
    case 'F':
      q.fn = FN_SIGN_SK;
      q.in[0] = k.sk;
      q.in[1] = make_msg(10, 1);
      q.ent.seed = arg(2);
      q.ent.fail_word = (int64_t)arg(3);
      q.ent.fail_count = 1000000;
      out.push_back(q);
      break;
    case 'X': {
      Rng r(arg(2));
      q.in[1] = r.blob(20);
      q.in[0] = r.blob(ref::P(n).pklen);
      q.in[2] = r.blob(ref::P(n).siglen);
      if (r.below(2)) q.in[0] = k.pk;
      if (r.below(2)) q.in[2][0] = k.sigs[0].second[0];
      q.fn = FN_VERIFY;
      out.push_back(q);
      break;
    }
    case 'Z': {
      Req g;
      g.fn = FN_RNG_NEW;
      g.rslot = fresh_rng;
      g.ent.seed = arg(3);
      out.push_back(g);
      q.in[1].clear();
      q.fn = FN_SZ;
      q.rslot = fresh_rng;
      q.a = 4;
      q.d[0] = t.size() > 1 ? strtod(t[1].c_str(), nullptr) : 0;
      q.d[1] = t.size() > 2 ? strtod(t[2].c_str(), nullptr) : 1.5;
      q.d[2] = ref::P(n).sigmin;
      out.push_back(q);
      break;
    }
    default: break;
  }
  return out;
}
bool World::salt_check(const Rsp& r, const std::string& where)
{
  const bytes& sig = r.out[0];
  if (sig.size() < 41) return true;
  bytes salt(sig.begin() + 1, sig.begin() + 41);
  if (std::search(r.stream.begin(), r.stream.end(), salt.begin(), salt.end()) == r.stream.end()) { fail("C15", "salt-not-drawn", where + ": the 40 salt bytes were not drawn from the generator in this call"); return false; }
  auto [p, ok] = salts.insert({ salt, where });
  if (!ok) { fail("C15", "salt-reused", where + ": salt already used by " + p->second); return false; }
  return true;
}
static bool is_sign(const Req& q) { return q.fn == FN_SIGN_SK || q.fn == FN_SIGN_BT; }

// ------------------------------------------------------------------ histories
void World::op_hist(const Op& o)
{
  std::vector<Req> pre;
  Node& nd = node(0);
  static const unsigned any = EXC;
  std::set<std::string> have;
  for (auto& s : nd.slots) if (s.first >= 0) have.insert(s.second);
  for (auto& r : nd.rngs) if (r.second) have.insert("rng" + std::to_string(r.first));
  auto reqs = unit(o.s("u"), 0, pre, have);
  std::set<std::string> mine;
  std::vector<Req> solo_pre;
  unit(o.s("u"), 0, solo_pre, mine);
  for (auto& q : pre) {
    // a slot that now holds another key is no longer what it was
    if (q.fn == FN_LOAD) nd.slots.erase(q.slot);
    if (q.fn == FN_RNG_NEW) q.ent.seed = mix(o.u("seed"), 77);
    Rsp r;
    ambient(o, q);
    if (!call(nd, q, r)) return;
    if (q.fn == FN_LOAD) { for (auto& hs : mine) if (hs.rfind("slot", 0) == 0) nd.slots[q.slot] = hs; }
    if (q.fn == FN_RNG_NEW) nd.rngs[q.rslot] = true;
  }
  std::vector<Rsp> got;
  for (auto& q : reqs) {
    ambient(o, q);
    if (o.has("crash") && (is_sign(q) || q.fn == FN_KEYGEN)) q.crash_edge = o.u("crash");
    Rsp r;
    if (!call(nd, q, r, any | CRASH)) {
      if (r.status == ST_CRASH_INJ) return; // restarted empty on next use
      if (r.status != ST_EXC) return;
      if (r.status == ST_EXC && !r.stop_fired && !r.fail_fired) { fail("*", std::string("exception:") + fn_name(q.fn), std::string(fn_name(q.fn)) + " threw: " + r.what); return; }
    }
    if (q.fn == FN_RNG_NEW && r.status == ST_OK) nd.rngs[q.rslot] = true;
    got.push_back(r);
    if (is_sign(q) && r.status == ST_OK && r.ret) salt_check(r, "unit " + o.s("u"));
    q.crash_edge = 0;
  }
  // the same call again and again in this process
  const bool own_salt = prop == "C15";
  if (o.has("rep") && !got.empty() && got[0].status == ST_OK && (own_salt || o.s("u")[0] != 'b')) {
    for (uint64_t i = 1, m = o.u("rep"); i <= m && !vio; i++)
      for (size_t j = 0; j < reqs.size(); j++) {
        Req q = reqs[j];
        ambient(o, q);
        if (own_salt) q.ent.seed = mix(q.ent.seed, i);
        Rsp r;
        if (!call(nd, q, r, any)) return;
        if (own_salt) { if (is_sign(q) && r.ret) salt_check(r, "unit " + o.s("u") + " again " + std::to_string(i)); }
        else if (obs(q, r) != obs(q, got[j])) { fail("C10", std::string("history:") + fn_name(q.fn), "repetition " + std::to_string(i) + " of the same " + fn_name(q.fn) + " differs from the first"); return; }
      }
    count("long-histories");
    count("repeated-calls", o.u("rep") * reqs.size());
  }
  if (prop != "C10") return;
  // the same operation alone, in a fresh process, at another time, over other garbage
  Node& f = fresh();
  const uint64_t alt = mix(o.u("amb"), 0xa17) | 1;
  auto amb2 = [&](Req& q) {
    q.amb.poison = o.i("plain") ? 0 : alt;
    q.amb.place = (q.amb.place + 1) % 3;
    q.amb.clock_skew = (int64_t)(alt % 4000000000000ull) - 2000000000000ll;
    q.amb.clock_rate = 1 + (int64_t)(alt % 777);
  };
  Rsp r;
  for (auto& q : solo_pre) {
    if (q.fn == FN_RNG_NEW) q.ent.seed ^= 0x5555;
    amb2(q);
    if (!call(f, q, r)) return;
  }
  for (size_t i = 0; i < reqs.size(); i++) {
    Req q = reqs[i];
    amb2(q);
    if (q.fn == FN_SIGN_BT && o.s("u")[0] == 'b') q.st.prefix = got[i].stream;
    call(f, q, r, any);
    if (obs(q, r) != obs(q, got[i])) {
      std::string d;
      if (r.status != got[i].status) d = "outcome";
      else if (r.stream_len != got[i].stream_len || r.words != got[i].words || r.opens != got[i].opens) d = "amount of randomness used";
      else if (r.stream != got[i].stream) d = "random bytes";
      else if (r.ret != got[i].ret) d = "return value";
      else d = "output";
      fail("C10", std::string("history:") + fn_name(q.fn), std::string(fn_name(q.fn)) + " after this history differs in its " + d + " from the same call in a fresh process");
      return;
    }
  }
  count("history-compared");
}

// ------------------------------------------------------------------ concurrency
void World::op_par(const Op& o)
{
  ParReq pr;
  std::vector<Req> pre;
  std::set<std::string> have;
  std::vector<std::vector<Req>> th;
  std::vector<std::string> names;
  for (int t = 0; t < 4; t++) {
    const std::string f = "t" + std::to_string(t);
    if (!o.has(f)) continue;
    std::vector<Req> rq;
    for (auto& u : split(o.s(f), ';')) {
      if (u.empty()) continue;
      auto v = unit(u, t, pre, have);
      for (auto& q : v) {
        ambient(o, q);
        if (q.budget == 0) q.budget = 400000000ull;
        rq.push_back(q);
      }
    }
    th.push_back(rq);
    names.push_back(f + "=" + o.s(f));
  }
  if (th.empty()) return;
  for (auto& q : pre) {
    ambient(o, q);
    if (q.fn == FN_RNG_NEW) q.ent.seed = mix(o.u("seed"), 1000 + (uint64_t)q.rslot);
  }
  // each thread's list alone
  Rng r(o.u("seed") ^ 0x9a4);
  std::vector<std::vector<uint64_t>> want(th.size());
  std::vector<std::map<uint32_t, uint64_t>> hits(th.size());
  const uint64_t mode = o.u("mode", 1);
  for (size_t t = 0; t < th.size(); t++) {
    Node& f = fresh();
    Rsp x;
    for (auto& q : pre) if (!call(f, q, x)) return;
    f.count = mode == 2;
    for (auto& q : th[t]) {
      call(f, q, x, EXC);
      if (vio) { f.count = false; return; }
      want[t].push_back(obs(q, x));
      for (auto& g : f.last_guards) hits[t][g.first] += g.second;
    }
    f.count = false;
  }
  pr.th = th;
  if (o.has("segs")) {
    for (auto& s : split(o.s("segs"), ',')) {
      auto p = split(s, ':');
      if (p.size() == 2) pr.segs.push_back({ strtoull(p[0].c_str(), nullptr, 10), strtoull(p[1].c_str(), nullptr, 10) });
    }
    pr.mode = 0;
  } else {
    pr.mode = mode;
    pr.seed = o.u("seed");
    pr.mean = o.u("mean", 2000);
    if (mode == 2)
      for (size_t t = 0; t < th.size(); t++) {
        std::vector<std::pair<uint32_t, uint64_t>> g(hits[t].begin(), hits[t].end());
        if (g.empty()) continue;
        std::vector<std::pair<uint32_t, uint64_t>> sh; // accesses to memory that threads may share
        for (auto& p : g) if (p.first >= MAX_GUARDS / 2) sh.push_back(p);
        if (!sh.empty()) { count("par-shared-accesses", sh.size()); if (r.below(5)) g = sh; }
        for (uint64_t i = 0, m = 1 + r.below(3); i < m; i++) {
          auto& p = g[r.below(g.size())];
          uint64_t hit = r.below(3) == 0 ? 1 : r.below(3) ? 1 + r.below(p.second) : p.second;
          pr.targets.push_back({ t, ((uint64_t)p.first << 24) | (hit & 0xffffff) });
        }
      }
  }
  Node& nd = fresh();
  Rsp x;
  for (auto& q : pre) if (!call(nd, q, x)) return;
  Rsp dead;
  ParRsp got = nd.par(pr, dead);
  if (dead.status != ST_OK) {
    const char* k = dead.status == ST_HANG ? "hang" : dead.status == ST_SIGNAL ? "signal" : dead.status == ST_ASAN ? "sanitizer" : "exit";
    fail("*", std::string("concurrent-") + k, std::string("concurrent calls: process ended (") + k + ") " + dead.what);
    return;
  }
  st.schedules.insert(got.site_hash);
  count("par-blocks");
  count("fault:preemption", got.switches);
  count("par-threads", th.size());
  if (got.blocked) count("par-lock-waits", got.blocked);
  std::string segs;
  for (auto& s : got.segs) { h.u64(s.t); h.u64(s.edges); segs += (segs.empty() ? "" : ",") + std::to_string(s.t) + ":" + std::to_string(s.edges); }
  resolved.back().set("segs", segs);
  state(got.site_hash);
  note("concurrent block: " + std::to_string(th.size()) + " threads, " + std::to_string(got.switches) + " switches, schedule " + segs.substr(0, 200));
  for (size_t t = 0; t < th.size(); t++)
    for (size_t i = 0; i < th[t].size(); i++) {
      const Rsp& y = got.th[t][i];
      st.calls++;
      st.edges += y.edges;
      const uint64_t ob = obs(th[t][i], y);
      h.u64(ob);
      if (ob != want[t][i]) fail("C09", std::string("interference:") + fn_name(th[t][i].fn), std::string(fn_name(th[t][i].fn)) + " in thread " + std::to_string(t) + " returned something else than when running alone");
      if (y.canary_bad) fail("C03", "outside", "a concurrent call wrote outside its buffers");
      if (is_sign(th[t][i]) && y.status == ST_OK && y.ret) salt_check(y, names[t] + " #" + std::to_string(i) + " seed " + o.s("seed"));
    }
}

// ------------------------------------------------------------------ hostile bytes
void World::op_hostile(const Op& o)
{
  const int n = (int)o.i("n", 512);
  const auto& P = ref::P(n);
  Rng r(o.u("seed") ^ 0x6057);
  const std::string fn = o.s("fn"), style = o.s("style");
  auto garbage = [&](size_t len, uint8_t hdr) {
    bytes b;
    const uint64_t k = r.below(8);
    if (k < 3) b = r.blob(len);
    else if (k == 3) b.assign(len, 0);
    else if (k == 4) b.assign(len, 0xff);
    else if (k == 5) { b.assign(len, 0); for (int i = 0; i < 20; i++) b[r.below(len)] = (uint8_t)r.next(); }
    else if (k == 6) { b.assign(len, (uint8_t)r.next()); }
    else { b = r.blob(len); for (size_t i = 0; i < len; i += 1 + r.below(90)) for (size_t j = i, e = std::min(len, i + 1 + r.below(40)); j < e; j++) b[j] = 0; }
    if (hdr && r.below(12)) b[0] = hdr;
    return b;
  };
  auto bits_to = [&](std::string bits, bytes& s) {
    bits.resize((s.size() - 41) * 8, r.below(4) ? '0' : '1');
    for (size_t b = 0; b + 7 < bits.size(); b += 8) { unsigned c = 0; for (size_t k = 0; k < 8; k++) c = c * 2 + (bits[b + k] == '1'); s[41 + b / 8] = (uint8_t)c; }
  };
  auto hostile_sig = [&]() {
    bytes s = garbage(P.siglen, (uint8_t)(0x30 | P.logn));
    FixKey& k = fx.key(n, (size_t)r.below(64));
    if (style == "mut") {
      static const char* m[] = { "flip", "flipbody", "fliptail", "flips", "byte", "zero", "ones", "trunc", "hdr", "splice", "coef", "neg", "negzero", "unary", "padbit", "short" };
      s = k.sigs[r.below(k.sigs.size())].second;
      for (uint64_t i = 0, c = 1 + r.below(3); i < c; i++) s = mutate_sig(s, m[r.below(16)], r, &fx.key(n, 1).sigs[0].second);
    } else if (style == "edge") {
      // coefficients of chosen cost so that a late one straddles the end
      s[0] = (uint8_t)(0x30 | P.logn);
      const int64_t room = (int64_t)(P.siglen - 41) * 8;
      std::string bits;
      int64_t back = r.range(0, 40), want = room - back;
      const size_t upto = r.below(3) ? (size_t)n - 1 : r.below((uint64_t)n);
      size_t i = 0;
      for (; i < upto; i++) {
        int64_t left = want - (int64_t)bits.size(), still = (int64_t)(upto - i);
        if (left < 9) break;
        int64_t un = std::max<int64_t>(0, std::min<int64_t>(left - 9 * still, (int64_t)r.below(4)));
        if (i + 1 == upto) un = std::max<int64_t>(0, left - 9);
        std::string c;
        do { c.clear(); for (int b = 0; b < 8; b++) c += r.below(2) ? '1' : '0'; } while (c == "10000000" && r.below(50));
        bits += c + std::string((size_t)un, '0') + '1';
      }
      // the tail: anything
      while ((int64_t)bits.size() < room) bits += (style == "edge" && r.below(3)) ? '0' : '1';
      if (r.below(2)) for (int64_t b = std::max<int64_t>(0, room - back); b < room; b++) bits[(size_t)b] = r.below(2) ? '1' : '0';
      bits_to(bits, s);
    } else if (style == "run") { // a very long unary run somewhere
      s[0] = (uint8_t)(0x30 | P.logn);
      std::string bits;
      const size_t at = r.below((uint64_t)n);
      for (size_t i = 0; i < at; i++) { std::string c; do { c.clear(); for (int b = 0; b < 8; b++) c += r.below(2) ? '1' : '0'; } while (c == "10000000"); bits += c + '1'; }
      for (int b = 0; b < 8; b++) bits += r.below(2) ? '1' : '0';
      const size_t room = (P.siglen - 41) * 8;
      if (bits.size() < room) bits += std::string(r.below(3) ? r.below(room - bits.size() + 40) : room, '0') + "1";
      if (r.below(2)) while (bits.size() + 9 <= room) { std::string c; do { c.clear(); for (int b = 0; b < 8; b++) c += r.below(2) ? '1' : '0'; } while (c == "10000000"); bits += c + '1'; }
      bits_to(bits, s);
    }
    return s;
  };
  Req q;
  q.n = n;
  uint64_t hb = 0;
  if (fn == "verify" || fn == "verify_h") {
    FixKey& k = fx.key(n, (size_t)r.below(64));
    q.in[1] = make_msg(o.has("len") ? std::min<uint64_t>(o.u("len"), 4 << 20) : r.below(4) ? r.below(200) : 0, r.next());
    q.in[2] = hostile_sig();
    if (o.has("len") && r.below(4)) q.in[2] = k.sigs[0].second; // well formed, so that the message is hashed
    q.in[0] = k.pk;
    q.fn = FN_VERIFY;
    if (fn == "verify_h") { q.fn = FN_VERIFY_H; q.slot = -1; q.in[0] = to_u16(k.k.h); }
    else if (r.below(4) == 0) q.in[0] = garbage(P.pklen, (uint8_t)P.logn);
    hb = honest("verify", n) + q.in[1].size() * 4;
  } else if (fn == "decsig") {
    q.fn = FN_DEC_SIG;
    q.in[0] = hostile_sig();
    hb = honest("decsig", n);
  } else if (fn == "decpk") {
    q.fn = FN_DEC_PK;
    q.in[0] = garbage(P.pklen, (uint8_t)P.logn);
    if (style == "mut") { q.in[0] = fx.key(n, (size_t)r.below(64)).pk; for (int i = 0; i < 3; i++) q.in[0][r.below(P.pklen)] ^= (uint8_t)r.next(); }
    hb = honest("decpk", n);
  } else if (fn == "decsk") {
    q.fn = FN_DEC_SK;
    q.in[0] = garbage(P.sklen, (uint8_t)(0x50 | P.logn));
    if (style == "mut") { q.in[0] = fx.key(n, (size_t)r.below(64)).sk; for (int i = 0; i < 3; i++) q.in[0][r.below(P.sklen)] ^= (uint8_t)r.next(); }
    hb = honest("decsk", n);
  } else return;
  ambient(o, q);
  q.budget = 8 * hb + 20000;
  count("fault:hostile-" + (style.empty() ? std::string("garbage") : style));
  Rsp a, b;
  if (!call(node(0), q, a)) return;
  // again: other place, other garbage around and below, other process
  const uint64_t ob = obs(q, a);
  q.amb.poison = mix(q.amb.poison, 77) | 1;
  q.amb.place = (q.amb.place + 1 + r.below(2)) % 3;
  q.amb.clock_skew += 86400ll * 1000000000;
  if (!call(node(1), q, b)) return;
  if (obs(q, b) != ob) fail("C03", std::string("not-a-function:") + fn_name(q.fn), std::string(fn_name(q.fn)) + " of the same bytes gave different results at another place in memory");
}

// ------------------------------------------------------------------ entropy faults
void World::op_entfail(const Op& o)
{
  const int n = (int)o.i("n", 512);
  const std::string fn = o.s("fn", "sign");
  FixKey& k = fx.key(n, (size_t)o.u("fix"));
  Node& nd = node(0);
  Req q;
  q.n = n;
  ambient(o, q);
  q.ent = entropy(o);
  q.st.record = 1;
  if (fn == "sign") { q.fn = FN_SIGN_SK; q.in[0] = k.sk; q.in[1] = make_msg(o.u("len", 30), o.u("mseed")); }
  else if (fn == "keygen") { q.fn = FN_KEYGEN; q.st.stop_at = 5000; }
  else { q.fn = FN_RNG_NEW; q.rslot = 4; }
  Rsp r;
  call(nd, q, r, EXC, "during the failure:");
  if (vio) return;
  if (r.fail_fired) {
    if (r.status == ST_OK) { fail("C07", "returned-normally:" + fn, fn + " returned normally although the entropy source failed " + std::to_string(r.fail_fired) + " time(s) while it was seeding"); return; }
    if (r.stop_fired || r.stream_len) { fail("C07", "predictable:" + fn, fn + " drew " + std::to_string(r.stream_len) + " random bytes although its generator could not be seeded"); return; }
    if (r.out_touched) { fail("C07", "output-touched:" + fn, fn + " changed its output buffer although seeding failed"); return; }
  } else {
    count("entropy-failure-not-reached");
    if (r.status == ST_EXC && !r.stop_fired) { fail("C07", "spurious:" + fn, fn + " threw without a failure: " + r.what); return; }
  }
  // the source recovers
  const uint64_t clean = o.u("ent", 1);
  Rng rr(o.u("seed"));
  for (int again = 0; again < 2; again++) {
    Req c = q;
    c.ent = Entropy{};
    c.ent.seed = clean + (uint64_t)again * 7919;
    Rsp x, y;
    call(nd, c, x, EXC, "after recovery:");
    if (vio) return;
    call(fresh(), c, y, EXC, "fresh process:");
    if (vio) return;
    if (x.status == ST_EXC && !x.stop_fired) { fail("C07", "no-recovery:" + fn, fn + " still fails after the entropy source recovered: " + x.what); return; }
    if (obs(c, x) != obs(c, y) || x.seed != y.seed) { fail("C07", "influenced:" + fn, fn + " after a failure and recovery differs from the same call in a fresh process"); return; }
    if (fn == "sign" && x.status == ST_OK) {
      if (!x.ret) { fail("C07", "no-recovery:" + fn, "signing is refused after the entropy source recovered"); return; }
      ref::ivec hh = k.k.h;
      if (!ref::verify_h(n, hh, c.in[1], x.out[0])) { fail("C07", "bad-after-recovery", "the signature after recovery does not verify"); return; }
      salt_check(x, "after recovery " + o.str());
    }
  }
}

// heap allocations refused during one call
void World::op_nomem(const Op& o)
{
  const int n = (int)o.i("n", 512);
  const std::string fn = o.s("fn", "sign");
  FixKey& k = fx.key(n, (size_t)o.u("fix"));
  auto& sg = k.sigs[o.u("seed") % k.sigs.size()];
  Node& nd = node(0);
  Req q;
  Rsp r, want, x;
  q.n = n;
  ambient(o, q);
  q.ent.seed = o.u("ent", 1);
  q.st.record = 1;
  q.in[1] = make_msg(o.u("len", 30), o.u("mseed"));
  if (fn == "sign" || fn == "sign_damaged") {
    q.fn = FN_SIGN_SK;
    q.in[0] = k.sk;
    if (fn != "sign") { Rng rr(o.u("seed")); q.in[0][1 + rr.below(q.in[0].size() - 1)] ^= (uint8_t)(1u << rr.below(8)); }
  } else if (fn == "keygen") {
    q.fn = FN_KEYGEN;
    q.in[1].clear();
    Rng rr(o.u("ent") ^ 0x4b);
    ref::ivec f, g;
    for (auto& sp : split(o.s("pre", "key:" + std::to_string(o.u("fix"))), '+'))
      if (make_pair(n, sp, f, g)) { bytes b = pair_bytes(n, f, g, rr); q.st.prefix.insert(q.st.prefix.end(), b.begin(), b.end()); }
  } else if (fn == "verify" || fn == "verify_bad") {
    q.fn = FN_VERIFY;
    q.in[0] = k.pk;
    q.in[1] = sg.first;
    q.in[2] = sg.second;
    if (o.u("len") > 300) { // a signature of the reference's making, over a longer message
      q.in[1] = make_msg(o.u("len"), o.u("mseed"));
      Rng rr(o.u("mseed") ^ 0x57);
      ref::SignInfo si;
      if (!ref::sign(k.k, q.in[1], rr.blob(60000), q.in[2], si)) return;
    }
    if (fn != "verify") { Rng rr(o.u("seed")); q.in[2] = mutate_sig(q.in[2], "flip", rr, nullptr); }
  } else if (fn == "decsk") { q.fn = FN_DEC_SK; q.in[0] = k.sk; q.in[1].clear(); }
  else if (fn == "decpk") { q.fn = FN_DEC_PK; q.in[0] = k.pk; q.in[1].clear(); }
  else if (fn == "load") { q.fn = FN_LOAD; q.slot = 3; q.in[0] = k.sk; q.in[1].clear(); }
  else { q.fn = FN_RNG_NEW; q.rslot = 4; q.in[1].clear(); }
  // with all the memory it wants
  q.alloc_own = o.u("own");
  if (!call(fresh(), q, want, NONE, "enough memory:")) return;
  if (q.alloc_own && !want.allocs_own) q.alloc_own = 0;
  if (q.alloc_own) { count("allocations-of-its-own", want.allocs_own); want.allocs = want.allocs_own; }
  Req f = q;
  f.alloc_fail = o.i("at");
  if (o.has("frac") && want.allocs) f.alloc_fail = (int64_t)((double)want.allocs * o.f("frac") / 1e6);
  else if (want.allocs && (q.fn != FN_KEYGEN || q.alloc_own)) f.alloc_fail %= (int64_t)want.allocs;
  f.alloc_count = o.i("cnt", 1);
  count("allocations-possible", want.allocs ? 1 : 0);
  call(nd, f, r, EXC | ABORT, "memory refused:");
  if (vio) return;
  if (r.status == ST_OK) {
    count(r.alloc_fired ? "out-of-memory-survived" : "out-of-memory-not-reached");
    if (obs(f, r) != obs(q, want)) { fail("C20", "wrong-result:" + fn, fn + " returned normally with another result after " + std::to_string(r.alloc_fired) + " refused allocation(s)"); return; }
  } else if (r.status == ST_EXC) {
    count("out-of-memory-exception");
    if (!r.alloc_fired) { fail("C20", "spurious:" + fn, fn + " threw although no allocation was refused: " + r.what); return; }
  }
  // memory is back (a stopped process has been restarted)
  call(nd, q, x, NONE, "afterwards:");
  if (vio) return;
  if (obs(q, x) != obs(q, want)) fail("C20", "influenced:" + fn, fn + " after running out of memory differs from the same call in a fresh process");
}
// one generator read in pieces against one read at once
void World::op_reads(const Op& o)
{
  Req g, q;
  Rsp r;
  g.n = q.n = (int)o.i("n", 512);
  g.fn = FN_RNG_NEW;
  g.rslot = q.rslot = 6;
  g.ent.seed = o.u("ent", 1);
  ambient(o, g);
  ambient(o, q);
  q.fn = FN_RNG_READ;
  bytes pieces;
  Node& nd = node(0);
  if (!call(nd, g, r)) return;
  for (auto& s : split(o.s("lens"), ',')) { // <length>[x<times>]
    if (s.empty()) continue;
    auto p = split(s, 'x');
    q.a = (int64_t)(strtoull(p[0].c_str(), nullptr, 10) % 150001);
    uint64_t k = p.size() > 1 ? strtoull(p[1].c_str(), nullptr, 10) : 1;
    while (k) {
      const uint64_t now = std::min<uint64_t>(k, q.a ? std::max<uint64_t>(1, 200000 / (uint64_t)q.a) : k);
      q.b = (int64_t)now;
      k -= now;
      if (!call(nd, q, r)) return;
      pieces.insert(pieces.end(), r.out[0].begin(), r.out[0].end());
    }
  }
  q.b = 0;
  Node& f = fresh();
  if (!call(f, g, r)) return;
  bytes whole;
  while (whole.size() < pieces.size()) {
    q.a = (int64_t)std::min<size_t>(pieces.size() - whole.size(), 150000);
    if (!call(f, q, r)) return;
    whole.insert(whole.end(), r.out[0].begin(), r.out[0].end());
  }
  count("reads-compared");
  if (whole != pieces) { fail("C08", "reads-differ", "a generator delivers other bytes when it is read in pieces of other lengths"); return; }
  // no stretch of the stream comes twice: no block starts like another place of the stream
  count("stream-bytes-compared", whole.size());
  std::unordered_map<uint64_t, size_t> starts;
  auto at = [&](size_t i) { uint64_t v; memcpy(&v, whole.data() + i, 8); return v; };
  const size_t step = whole.size() > 20000 ? 136 : 8;
  for (size_t i = 0; i + 32 <= whole.size(); i += step) {
    auto [p, fresh_] = starts.insert({ at(i), i });
    if (!fresh_ && !memcmp(whole.data() + i, whole.data() + p->second, 32)) { fail("C08", "repeats", "a generator's stream repeats itself within " + std::to_string(whole.size()) + " bytes"); return; }
  }
  if (step > 8)
    for (size_t i = 0; i + 32 <= whole.size(); i++) {
      auto p = starts.find(at(i));
      if (p != starts.end() && p->second != i && !memcmp(whole.data() + i, whole.data() + p->second, 32)) { fail("C08", "repeats", "a generator's stream repeats itself within " + std::to_string(whole.size()) + " bytes"); return; }
    }
}
// many generators, one after another in one process, each seeded on its own
void World::op_manyrng(const Op& o)
{
  Node& nd = node(0);
  std::map<bytes, uint64_t> seen;
  std::map<uint64_t, bytes> by;
  Rng r(o.u("seed") ^ 0x3a9);
  for (uint64_t i = 0, m = o.u("count"); i < m; i++) {
    Req g, q;
    Rsp x;
    g.n = q.n = (int)o.i("n", 512);
    g.fn = FN_RNG_NEW;
    g.rslot = q.rslot = 6 + (int64_t)r.below(3);
    // mostly entropy of its own, sometimes that of an earlier one
    const uint64_t e = i && r.below(8) == 0 ? r.below(i) : i;
    g.ent.seed = mix(o.u("ent", 1), e);
    ambient(o, g);
    ambient(o, q);
    if (!call(nd, g, x)) return;
    if (x.words < 8) { fail("C08", "shared-seeding:rng", "generator " + std::to_string(i) + " of this process took only " + std::to_string(x.words * 32) + " bits from the entropy source"); return; }
    q.fn = FN_RNG_READ;
    q.a = 48;
    if (!call(nd, q, x)) return;
    if (e != i && by.count(e)) { if (by[e] != x.out[0]) { fail("C08", "depends-on-more:rng", "generators " + std::to_string(e) + " and " + std::to_string(i) + " of a process got the same entropy and deliver different bytes"); return; } }
    else {
      by[e] = x.out[0];
      auto [p, ok] = seen.insert({ x.out[0], e });
      if (!ok && p->second != e) { fail("C08", "ignores-entropy:rng", "generators " + std::to_string(p->second) + " and " + std::to_string(i) + " of a process deliver the same bytes from different entropy"); return; }
    }
  }
  count("many-generators");
}
// an operation, also a refused or aborted one, gives back the memory and entropy sources it took
void World::op_give(const Op& o)
{
  std::vector<Req> pre;
  std::set<std::string> have;
  Node& nd = fresh();
  auto reqs = unit(o.s("u"), 0, pre, have);
  Rsp r;
  for (auto& q : pre) {
    if (q.fn == FN_RNG_NEW) q.ent.seed = mix(o.u("seed"), 77);
    ambient(o, q);
    q.track = 1;
    if (!call(nd, q, r)) return;
  }
  const uint64_t reps = std::max<uint64_t>(5, std::min<uint64_t>(o.u("rep", 5), 40));
  std::vector<std::array<uint64_t, 3>> held; // after every repetition
  std::string nm;
  uint64_t allocs = 0, status = 0;
  auto fault = [&](Req& q) {
      ambient(o, q);
      q.track = 1;
      const bool random = is_sign(q) || q.fn == FN_KEYGEN || q.fn == FN_RNG_NEW;
      if (random && o.has("fopen")) q.ent.fail_open = o.i("fopen");
      if (random && o.has("fword")) { q.ent.fail_word = o.i("fword"); q.ent.fail_count = 1000000; q.ent.fail_kind = o.u("fkind"); }
      if (random && o.has("stop") && q.fn != FN_RNG_NEW) q.st.stop_at = o.u("stop");
      if (o.has("hdr") && !q.in[0].empty()) q.in[0][0] ^= 0x40;
      if (o.has("pre") && q.fn == FN_KEYGEN) { // candidates that must be refused come first
        Rng rr(o.u("seed") ^ 0x4b);
        ref::ivec f, g;
        bytes b;
        for (auto& sp : split(o.s("pre"), '+'))
          if (make_pair(q.n == 512 ? 512 : 1024, sp, f, g)) { bytes c = pair_bytes((int)q.n, f, g, rr); b.insert(b.end(), c.begin(), c.end()); }
        q.st.prefix.insert(q.st.prefix.begin(), b.begin(), b.end());
      }
  };
  uint64_t T = std::min<uint64_t>(1, o.u("threads"));
  for (auto& q : reqs) if (q.fn == FN_RNG_NEW && (o.has("fopen") || o.has("fword"))) T = 0; // what follows needs that generator
  for (uint64_t i = 0; i < reps && T; i++) { // a thread for every repetition, which ends after it
    ParReq pr;
    pr.th.resize(T);
    for (auto& th : pr.th)
      for (auto q : reqs) {
        fault(q);
        if (q.budget == 0) q.budget = 400000000ull;
        if (q.rslot >= 0) q.rslot += 2 * (int64_t)(&th - pr.th.data());
        th.push_back(q);
      }
    Rsp dead;
    ParRsp got = nd.par(pr, dead);
    if (dead.status != ST_OK) { fail("*", "concurrent-exit", "calls in threads of their own: the process ended " + dead.what); return; }
    for (auto& th : got.th)
      for (auto& y : th) {
        st.calls++;
        st.edges += y.edges;
        if (y.status != ST_OK && y.status != ST_EXC) return;
        allocs += y.allocs;
        r = y;
        h.u64(obs(reqs[(size_t)(&y - th.data())], y));
      }
    nm = fn_name(reqs.back().fn);
    Req none;
    none.fn = FN_NONE;
    none.track = 1;
    Rsp now;
    if (!call(nd, none, now)) return;
    if (now.live_blocks == ~0ull) return;
    held.push_back({ now.live_bytes, now.live_devices, now.live_blocks });
    count("threads-ended", T);
  }
  for (uint64_t i = 0; i < reps && !T; i++) {
    for (auto q : reqs) {
      fault(q);
      call(nd, q, r, EXC);
      if (vio || (r.status != ST_OK && r.status != ST_EXC)) return;
      if (r.status == ST_EXC && !r.stop_fired && !r.fail_fired) { fail("*", std::string("exception:") + fn_name(q.fn), std::string(fn_name(q.fn)) + " threw: " + r.what); return; }
      nm = fn_name(q.fn);
      allocs += r.allocs;
      status = mix(status, r.status * 2 + (r.ret != 0));
      if (r.status == ST_EXC) break;
    }
    if (r.live_blocks == ~0ull) return;
    held.push_back({ r.live_bytes, r.live_devices, r.live_blocks });
  }
  count("held-compared");
  if (allocs) count("allocations-followed", allocs);
  bool mem = true, dev = true;
  for (size_t i = 1; i < held.size(); i++) {
    mem &= held[i][0] > held[i - 1][0];
    dev &= (int64_t)held[i][1] > (int64_t)held[i - 1][1];
  }
  const std::string how = T ? " in a thread of its own" : r.status == ST_EXC ? " that ends with an exception" : has_ret(reqs.back().fn) && !r.ret ? " that is refused" : "";
  if (mem) fail("C21", "memory:" + nm, "every " + nm + how + " keeps memory: " + std::to_string(held.back()[0]) + " bytes in " + std::to_string(held.back()[2]) + " blocks after " + std::to_string(reps) + " of them");
  if (dev) fail("C21", "entropy-source:" + nm, "every " + nm + how + " leaves an entropy source open: " + std::to_string((int64_t)held.back()[1]) + " after " + std::to_string(reps) + " of them");
}
// a message of up to several GiB (a sparse mapping), signed and verified, and its near relatives refused
void World::op_huge(const Op& o)
{
  const int n = (int)o.i("n", 512);
  FixKey& fk = fx.key(n, (size_t)o.u("fix"));
  Node& nd = fresh();
  Req q;
  Rsp r;
  q.n = n;
  HugeMsg hm;
  hm.len = std::max<uint64_t>(1 << 20, o.u("len"));
  hm.seed = o.u("mseed");
  const std::string route = o.s("route", "sk");
  if (route == "bt") {
    Req l;
    l.n = n;
    l.fn = FN_LOAD;
    l.slot = 1;
    l.in[0] = fk.sk;
    if (!call(nd, l, r)) return;
    Req g;
    g.n = n;
    g.fn = FN_RNG_NEW;
    g.rslot = 1;
    g.ent.seed = o.u("ent");
    if (!call(nd, g, r)) return;
    q.fn = FN_SIGN_BT;
    q.slot = q.rslot = 1;
  } else {
    q.fn = FN_SIGN_SK;
    q.in[0] = fk.sk;
    q.ent.seed = o.u("ent");
  }
  ambient(o, q);
  q.st.record = 1;
  q.budget = 2000000000ull;
  q.huge = hm;
  // copying such a message may be too much for memory or time here: that is not judged
  auto huge_call = [&](Node& w, Req& x, Rsp& y) {
    y = w.call(x);
    st.calls++;
    st.edges += y.edges;
    count(std::string("op:") + fn_name(x.fn));
    if (y.status == ST_OK) { h.u64(obs(x, y)); h.u64(y.edges); return true; }
    if (y.status == ST_SIGNAL && y.ret != SIGABRT) { fail("*", std::string("huge-message:") + fn_name(x.fn), std::string(fn_name(x.fn)) + " of a message of " + std::to_string(x.huge.len) + " bytes: " + y.what); return false; }
    count("huge-not-judged");
    return false;
  };
  if (!huge_call(nd, q, r)) return;
  if (!r.ret) { fail("C01", "refused", "signing a message of " + std::to_string(hm.len) + " bytes was refused"); return; }
  const bytes sig = r.out[0];
  auto judge = [&](const HugeMsg& m, const std::string& what) {
    Req x;
    Rsp y;
    x.n = n;
    x.fn = FN_VERIFY;
    x.in[0] = fk.pk;
    x.in[2] = sig;
    x.huge = m;
    x.budget = 2000000000ull;
    ambient(o, x);
    if (!huge_call(node(1), x, y)) return;
    uint8_t* p = m.map();
    if (!p) return;
    ref::VInfo vi;
    const bool rv = ref::verify(n, fk.pk, ref::Span(p, m.len), sig, &vi);
    bytes want;
    ref::SignInfo si;
    bool have = false;
    if (what.empty()) have = ref::sign(fk.k, ref::Span(p, m.len), r.stream, want, si, 4000);
    m.unmap(p);
    count("huge-messages");
    if (what.empty()) {
      if (!y.ret) fail("C01", "does-not-verify", "the signature of a message of " + std::to_string(m.len) + " bytes is rejected by verification");
      else if (!rv) fail("C01", "not-a-signature", "the signature of a message of " + std::to_string(m.len) + " bytes is not valid by the specification");
      if (!si.ambiguous && !si.norm_edge && (!have || want != sig)) fail("C12", "differs", "the signature of a message of " + std::to_string(m.len) + " bytes differs from the specification's");
    }
    if ((y.ret != 0) != rv) fail("C02", rv ? "rejects-valid" : "accepts-invalid", (rv ? "rejects the signature of a message of " : "accepts a signature for another message, of ") + std::to_string(m.len) + " bytes " + what);
  };
  judge(hm, "");
  for (auto& a : split(o.s("alts"), ',')) { // +<n> -<n>: other length; a<pos>: one byte changed
    if (a.size() < 2 || vio) continue;
    HugeMsg m = hm;
    const uint64_t x = strtoull(a.c_str() + 1, nullptr, 0);
    if (a[0] == '+') m.len += x;
    else if (a[0] == '-') { if (x + (1 << 20) > m.len) continue; m.len -= x; }
    else { m.alter_at = x % m.len; m.alter_by = 1 << (x % 8); }
    count("fault:huge-message-altered");
    judge(m, a);
  }
}
static int gf2_rank(std::vector<bytes> v)
{
  int rank = 0;
  if (v.empty()) return 0;
  const size_t nb = v[0].size() * 8;
  for (size_t c = 0; c < nb; c++) {
    size_t p = (size_t)rank;
    while (p < v.size() && !((v[p][c / 8] >> (c % 8)) & 1)) p++;
    if (p >= v.size()) continue;
    std::swap(v[p], v[(size_t)rank]);
    for (size_t i = 0; i < v.size(); i++)
      if (i != (size_t)rank && ((v[i][c / 8] >> (c % 8)) & 1))
        for (size_t k = 0; k < v[i].size(); k++) v[i][k] ^= v[(size_t)rank][k];
    rank++;
    if ((size_t)rank == v.size()) break;
  }
  return rank;
}
void World::op_seedprobe(const Op& o)
{
  const int n = (int)o.i("n", 512);
  const std::string fn = o.s("fn", "rng");
  FixKey& k = fx.key(n, (size_t)o.u("fix"));
  Node& nd = node(0);
  auto run = [&](Node& w, const Entropy& e, uint64_t amb, Rsp& r, bytes& out, uint64_t take = 64) {
    Req q;
    q.n = n;
    Op oo = o;
    oo.set("amb", amb);
    ambient(oo, q);
    q.ent = e;
    q.st.record = 1;
    q.st.stop_at = take;
    if (fn == "sign") { q.fn = FN_SIGN_SK; q.in[0] = k.sk; q.in[1] = make_msg(20, 3); }
    else if (fn == "keygen") q.fn = FN_KEYGEN;
    else {
      q.fn = FN_RNG_NEW;
      q.rslot = 5;
      q.st = Steer{};
      if (!call(w, q, r)) return false;
      Rsp s;
      Req g;
      g.fn = FN_RNG_READ;
      g.rslot = 5;
      g.a = (int64_t)take;
      if (!call(w, g, s)) return false;
      out = s.out[0];
      return true;
    }
    call(w, q, r, EXC);
    if (vio) return false;
    if (!r.stop_fired) { fail("C08", "no-draw:" + fn, fn + " did not draw random bytes"); return false; }
    out = r.stream;
    out.resize(take);
    return true;
  };
  Entropy e;
  e.seed = o.u("ent", 1);
  Rsp base, r;
  bytes o0, o1;
  if (!run(nd, e, o.u("amb"), base, o0)) return;
  const uint64_t W = base.words;
  note(fn + ": " + std::to_string(W) + " entropy words, " + std::to_string(base.opens) + " sources opened");
  if (W < 8) { fail("C08", "too-little-entropy:" + fn, fn + " took " + std::to_string(W * 32) + " bits from the entropy source to seed its generator, 256 are needed"); return; }
  // same entropy: same bytes, here and in a fresh process at another time
  if (!run(nd, e, mix(o.u("amb"), 5) | 1, r, o1)) return;
  if (r.words < 8) { fail("C08", "shared-seeding:" + fn, "the second " + fn + " in this process took only " + std::to_string(r.words * 32) + " bits from the entropy source"); return; }
  if (o1 != o0) { fail("C08", "depends-on-more:" + fn, "the same entropy gave other random bytes the second time"); return; }
  if (!run(fresh(), e, mix(o.u("amb"), 9) | 1, r, o1)) return;
  if (o1 != o0) { fail("C08", "depends-on-more:" + fn, "the same entropy gave other random bytes in another process"); return; }
  // other entropy: other bytes
  Entropy e2 = e;
  e2.seed += 1;
  if (!run(nd, e2, o.u("amb"), r, o1)) return;
  if (o1 == o0) { fail("C08", "ignores-entropy:" + fn, "other entropy gave the same random bytes"); return; }
  // every entropy bit
  const uint64_t only = o.u("bits", 0); // sample that many bits (0: all)
  uint64_t infl = 0, tried = 0;
  std::vector<bytes> deltas;
  const bytes seed0 = base.seed;
  Rng rr(o.u("seed") ^ 0x5eed);
  std::vector<std::pair<uint64_t, int>> bits;
  for (uint64_t w = 0; w < W && w < 1024; w++) for (int b = 0; b < 32; b++) bits.push_back({ w, b });
  if (only) { for (size_t i = 0; i < only && i < bits.size(); i++) std::swap(bits[i], bits[i + rr.below(bits.size() - i)]); if (bits.size() > only) bits.resize(only); }
  for (auto& [w, b] : bits) {
    Entropy f = e;
    f.flip_word = (int64_t)w;
    f.flip_mask = 1ull << b;
    if (!run(nd, f, o.u("amb"), r, o1, 64)) return;
    count("fault:entropy-bit-flip");
    tried++;
    if (o1 != o0) {
      infl++;
      if (seed0.size() == r.seed.size() && !seed0.empty()) {
        bytes d = seed0;
        for (size_t i = 0; i < d.size(); i++) d[i] ^= r.seed[i];
        deltas.push_back(d);
      }
    }
    if (!only && infl >= 320 && deltas.size() >= 320) break;
  }
  if (only) {
    if (W == 8 && infl < tried) fail("C08", "entropy-lost:" + fn, std::to_string(tried - infl) + " of " + std::to_string(tried) + " sampled entropy bits do not influence the generator of " + fn);
    return;
  }
  if (infl < 256) { fail("C08", "entropy-lost:" + fn, "only " + std::to_string(infl) + " of " + std::to_string(tried) + " entropy bits influence the generator of " + fn); return; }
  if (!deltas.empty()) {
    int rk = gf2_rank(deltas);
    if (rk < 248) { fail("C08", "entropy-folded:" + fn, "the seeds of " + fn + " span only " + std::to_string(rk) + " dimensions, 256 bits of entropy are needed"); return; }
  }
  count("seed-probes");
}

// ------------------------------------------------------------------ the integer sampler
static std::string dbl(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
void World::op_sz(const Op& o)
{
  const int n = (int)o.i("n", 512);
  const double smin = (double)ref::P(n).sigmin;
  const double mu = (double)hexd(o.s("mu", "0")), sigma = (double)hexd(o.s("sigma", "1.5"));
  Rng r(o.u("seed") ^ 0x52a);
  const std::string style = o.s("style", "mix");
  bytes s;
  // the stream
  auto word = [&](unsigned __int128 u) { for (int k = 0; k < 9; k++) s.push_back((uint8_t)(u >> (8 * k))); };
  if (style == "raw") s = r.blob(2000);
  else if (style == "const") { s.assign(600, (uint8_t)o.u("byte")); }
  else {
    const uint64_t iters = 1 + r.below(style == "long" ? 200 : 6);
    for (uint64_t it = 0; it < iters; it++) {
      int z0;
      const uint64_t how = r.below(4);
      if (how == 0) { // exactly at a table entry
        int i = (int)r.below(18);
        int d = (int)r.range(-1, 1);
        unsigned __int128 u = ref::rcdt(i);
        if (d < 0 && u == 0) d = 0;
        word((u + (unsigned __int128)(__int128)d) & ((((unsigned __int128)1) << 72) - 1));
      } else if (how == 1) { // byte-wise near a table entry: agree in the top bytes
        int i = (int)r.below(18);
        unsigned __int128 u = ref::rcdt(i);
        int keep = 1 + (int)r.below(8);
        unsigned __int128 m = (((unsigned __int128)1) << (8 * keep)) - 1;
        word((u & ~m) | ((((unsigned __int128)r.next() << 64) | r.next()) & m));
      } else if (how == 2) { unsigned __int128 u = r.below(3) == 0 ? 0 : ((((unsigned __int128)1) << 72) - 1); word(u); }
      else word((((unsigned __int128)r.below(256)) << 64) | r.next());
      z0 = ref::base_z0(s.data() + s.size() - 9, false);
      const int b = (int)r.below(2);
      s.push_back((uint8_t)((r.next() & 0xfe) | (unsigned)b));
      const uint64_t thr = ref::ber_threshold((ref::real)mu, (ref::real)sigma, (ref::real)smin, z0, b);
      const int eq = r.below(3) == 0 ? (int)r.below(8) : 0;
      for (int i = 0; i < eq; i++) s.push_back((uint8_t)(thr >> (56 - 8 * i)));
      const int v = (int)((thr >> (56 - 8 * eq)) & 255);
      if (it + 1 < iters) s.push_back((uint8_t)(v < 255 ? v + 1 + (int)r.below(255 - (uint64_t)v) : 255));
      else s.push_back((uint8_t)(v > 0 ? r.below((uint64_t)v) : 0));
    }
  }
  const size_t scripted = s.size();
  bytes more = r.blob(4000);
  s.insert(s.end(), more.begin(), more.end());
  ref::Stream st_{ s.data(), s.size() };
  ref::SzInfo si;
  std::vector<size_t> starts;
  si.starts = &starts;
  const int32_t want = ref::samplerz((ref::real)mu, (ref::real)sigma, (ref::real)smin, st_, si);
  if (st_.under) { count("sampler-stream-short"); return; }
  if (si.ambiguous) { count("ambiguous-skipped"); return; }
  count("sampler-compared");
  count("sampler-iterations", si.iters);
  (void)scripted;
  Node& nd = node(0);
  Req g;
  Rsp a;
  if (!nd.alive() || !nd.rngs.count(6)) {
    g.fn = FN_RNG_NEW;
    g.rslot = 6;
    if (!call(nd, g, a)) return;
    nd.rngs[6] = true;
  }
  Req q;
  ambient(o, q);
  q.fn = FN_SZ;
  q.rslot = 6;
  q.a = 16;
  q.d[0] = mu;
  q.d[1] = sigma;
  q.d[2] = smin;
  q.st.prefix = s;
  q.budget = 20000 + 400 * s.size();
  if (!call(nd, q, a)) return;
  const std::string at = "centre " + dbl(mu) + ", deviation " + dbl(sigma);
  if ((int32_t)a.ret != want) { fail("C11", "value", "sampler returned " + std::to_string((int32_t)a.ret) + " at " + at + ", the specification gives " + std::to_string(want)); return; }
  if (a.stream_len != st_.pos + 16) { fail("C11", "consumption", "sampler consumed " + std::to_string((int64_t)a.stream_len - 16) + " bytes at " + at + ", the specification " + std::to_string(st_.pos)); return; }
  // array variant: table bytes most significant first
  bytes arr(s.begin(), s.begin() + (long)std::min(s.size(), st_.pos + 64));
  for (size_t p : starts) std::reverse(arr.begin() + (long)p, arr.begin() + (long)p + 9);
  if (o.i("tight")) arr.resize(st_.pos);
  q.fn = FN_SZ_ARR;
  q.in[0] = arr;
  q.a = 0;
  q.st = Steer{};
  if (!call(nd, q, a)) return;
  if ((int32_t)a.ret != want) fail("C11", "array-value", "array sampler returned " + std::to_string((int32_t)a.ret) + " at " + at + ", the specification gives " + std::to_string(want));
  else if ((uint64_t)a.ret2 != st_.pos) fail("C11", "array-consumption", "array sampler consumed " + std::to_string(a.ret2) + " bytes at " + at + ", the specification " + std::to_string(st_.pos));
}
// search the acceptance threshold byte by byte through the sampler's own behaviour
void World::op_sztie(const Op& o)
{
  const int n = (int)o.i("n", 512);
  const double smin = (double)ref::P(n).sigmin;
  const double mu = (double)hexd(o.s("mu", "0")), sigma = (double)hexd(o.s("sigma", "1.5"));
  const int z0 = (int)(o.u("z0") % 19), b = (int)(o.u("b") & 1);
  Rng r(o.u("seed") ^ 0x71e);
  Node& nd = node(0);
  Req g;
  Rsp a;
  if (!nd.alive() || !nd.rngs.count(6)) {
    g.fn = FN_RNG_NEW;
    g.rslot = 6;
    if (!call(nd, g, a)) return;
    nd.rngs[6] = true;
  }
  bytes head;
  {
    using u128 = unsigned __int128;
    u128 lo = z0 == 18 ? 0 : ref::rcdt(z0), hi = z0 == 0 ? ((u128)1 << 72) : ref::rcdt(z0 - 1);
    u128 u = lo + (((u128)r.next() << 64) | r.next()) % (hi - lo);
    for (int k = 0; k < 9; k++) head.push_back((uint8_t)(u >> (8 * k)));
    head.push_back((uint8_t)((r.next() & 0xfe) | (unsigned)b));
  }
  const int32_t zval = (int32_t)floor(mu) + (b ? z0 + 1 : -z0);
  const std::string at = "centre " + dbl(mu) + ", deviation " + dbl(sigma) + ", table value " + std::to_string(z0) + (b ? "+" : "-");
  uint64_t T = 0;
  bytes eq;
  // -1 accepted, 0 tie, 1 rejected
  auto probe = [&](int v) -> int {
    Req q;
    ambient(o, q);
    q.fn = FN_SZ;
    q.rslot = 6;
    q.d[0] = mu;
    q.d[1] = sigma;
    q.d[2] = smin;
    q.st.prefix = head;
    q.st.prefix.insert(q.st.prefix.end(), eq.begin(), eq.end());
    q.st.prefix.push_back((uint8_t)v);
    const uint64_t used = q.st.prefix.size();
    q.st.stop_at = used + 1;
    q.budget = 100000;
    Rsp x;
    call(nd, q, x, EXC);
    if (vio) return 2;
    if (!x.stop_fired) {
      if (x.stream_len != used) { fail("C11", "consumption", "sampler consumed " + std::to_string(x.stream_len) + " bytes at " + at + " where " + std::to_string(used) + " decide"); return 2; }
      if ((int32_t)x.ret != zval) { fail("C11", "value", "sampler accepted with " + std::to_string((int32_t)x.ret) + " instead of " + std::to_string(zval) + " at " + at); return 2; }
      return -1;
    }
    return x.stream_len == used + 1 ? 0 : 1;
  };
  for (int i = 0; i < 8; i++) {
    int lo = 0, hi = 255, t = -1; // smallest v that is not accepted
    while (lo <= hi) {
      int m = (lo + hi) / 2, p = probe(m);
      if (p == 2) return;
      if (p < 0) lo = m + 1;
      else { if (p == 0) { t = m; if (i < 7) break; } hi = m - 1; }
    }
    if (i < 7) {
      if (t < 0) { fail("C11", "lazy-comparison", "no byte value continues comparison " + std::to_string(i) + " of the acceptance test at " + at); return; }
      T |= (uint64_t)t << (56 - 8 * i);
      eq.push_back((uint8_t)t);
    } else {
      // in the last byte equality rejects: lo is the threshold byte (or all 256 were accepted)
      if (lo > 255) { fail("C11", "tie-accepted", "the acceptance test accepts when all bytes equal the threshold at " + at); return; }
      T |= (uint64_t)lo;
    }
  }
  ref::real x = 0;
  const uint64_t R = ref::ber_threshold((ref::real)mu, (ref::real)sigma, (ref::real)smin, z0, b, &x);
  const uint64_t err = ref::ber_error(R, (ref::real)sigma, z0, 1e-15L);
  const uint64_t d = T > R ? T - R : R - T;
  count("thresholds-measured");
  note("threshold measured " + std::to_string(T) + " reference " + std::to_string(R) + " allowed error " + std::to_string(err));
  if (d > err) fail("C11", "threshold", "acceptance threshold " + std::to_string(T) + " at " + at + ", the specification gives " + std::to_string(R) + " (allowed rounding error " + std::to_string(err) + ")");
}

// ------------------------------------------------------------------ damaged keys
void World::op_damage(const Op& o)
{
  const int n = (int)o.i("n", 512);
  const auto& P = ref::P(n);
  FixKey& k = fx.key(n, (size_t)o.u("fix"));
  Rng r(o.u("seed") ^ 0xda3a6e);
  const std::string style = o.s("style");
  bytes sk = k.sk;
  const size_t fg = (size_t)(n * P.fgbits / 8), f0 = 1, g0 = 1 + fg, F0 = 1 + 2 * fg;
  auto part = [&](size_t& a, size_t& e) {
    switch (r.below(4)) {
      case 0: a = f0; e = g0; break;
      case 1: a = g0; e = F0; break;
      case 2: a = F0; e = sk.size(); break;
      default: a = 1; e = sk.size(); break;
    }
  };
  size_t a, e;
  part(a, e);
  FixKey& k2 = fx.key(n, (size_t)o.u("fix") + 1 + r.below(7));
  if (style == "flip") sk[a + r.below(e - a)] ^= (uint8_t)(1u << r.below(8));
  else if (style == "flips") { for (uint64_t i = 0, m = 2 + r.below(40); i < m; i++) sk[a + r.below(e - a)] ^= (uint8_t)(1u << r.below(8)); }
  else if (style == "byte") sk[a + r.below(e - a)] = (uint8_t)r.next();
  else if (style == "hdr") sk[0] ^= (uint8_t)(1 + r.below(255));
  else if (style == "zero") { size_t p = a + r.below(e - a), l = 1 + r.below(r.below(2) ? 64 : sk.size()); for (size_t i = p; i < std::min(sk.size(), p + l); i++) sk[i] = 0; }
  else if (style == "ones") { size_t p = a + r.below(e - a), l = 1 + r.below(64); for (size_t i = p; i < std::min(sk.size(), p + l); i++) sk[i] = 0xff; }
  else if (style == "partzero") { for (size_t i = a; i < e; i++) sk[i] = 0; }
  else if (style == "torn") { size_t p = 1 + r.below(sk.size() - 1); for (size_t i = p; i < sk.size(); i++) sk[i] = 0; }
  else if (style == "torn512") { size_t p = 512 * (1 + r.below((sk.size() - 1) / 512)); const bytes& o2 = k2.sk; for (size_t i = p; i < sk.size(); i++) sk[i] = r.below(2) ? o2[i] : o2[i]; }
  else if (style == "lostblock") { size_t p = 512 * r.below((sk.size() + 511) / 512); for (size_t i = std::max<size_t>(p, 1); i < std::min(sk.size(), p + 512); i++) sk[i] = 0; }
  else if (style == "mix") { for (size_t i = a; i < e; i++) sk[i] = k2.sk[i]; }
  else if (style == "swapfg") { for (size_t i = 0; i < fg; i++) std::swap(sk[f0 + i], sk[g0 + i]); }
  else if (style == "random") { bytes x = r.blob(e - a); std::copy(x.begin(), x.end(), sk.begin() + (long)a); }
  else if (style == "shift") { bytes x(sk.begin() + (long)a, sk.begin() + (long)e - 1); std::copy(x.begin(), x.end(), sk.begin() + (long)a + 1); }
  else if (style == "minus") { // every coefficient of F negated
    ref::ivec F = k.k.F; for (auto& x : F) x = -x; sk = ref::encode_sk(n, k.k.f, k.k.g, F);
  } else if (style == "addq" || style == "qclose") { // equation holds mod q but not over the integers, or nearly
    ref::ivec F = k.k.F;
    size_t i = r.below(F.size());
    F[i] = std::max(-127, std::min(127, F[i] + (int)(r.below(2) ? 1 : -1)));
    sk = ref::encode_sk(n, k.k.f, k.k.g, F);
  } else if (style == "xf" || style == "xnearf") { // F replaced by F + c x^i f: still (nearly) a valid completion
    ref::ivec F = k.k.F;
    const size_t sft = r.below((uint64_t)n);
    bool fits = true;
    for (size_t j = 0; j < (size_t)n; j++) {
      size_t t = j + sft;
      int v = k.k.f[j];
      if (t >= (size_t)n) { t -= (size_t)n; v = -v; }
      F[t] += v;
      if (std::abs(F[t]) > 127) fits = false;
    }
    if (!fits) { count("pair-not-built"); return; }
    if (style == "xnearf") F[r.below(F.size())] ^= 1;
    sk = ref::encode_sk(n, k.k.f, k.k.g, F);
  } else if (style == "noninv" || style == "noninvg") {
    ref::ivec f, g;
    if (!make_pair(n, "noninv:" + std::to_string(r.next() % 1000003), f, g)) { count("pair-not-built"); return; }
    const int lim = n == 512 ? 31 : 15;
    if (maxabs(f) > lim || maxabs(g) > lim) return;
    sk = style == "noninv" ? ref::encode_sk(n, f, g, k2.k.F) : ref::encode_sk(n, g, f, k2.k.F);
  }
  if (style == "slots") { // the equation still holds mod q at one root of x^N + 1
    const auto& w = fx.slot[n == 1024];
    for (size_t i = 0; i < 32 && !vio; i++) {
      const auto& s = w[(o.u("seed") * 32 + i) % w.size()];
      FixKey& ks = fx.key(n, (size_t)s[0]);
      ref::ivec F = ks.k.F;
      F[(size_t)s[1]] = s[2];
      F[(size_t)s[3]] = s[4];
      damaged(o, n, style, ref::encode_sk(n, ks.k.f, ks.k.g, F));
    }
    return;
  }
  if (sk == k.sk) { count("damage-none"); return; }
  damaged(o, n, style, sk);
}
void World::damaged(const Op& o, int n, const std::string& style, const bytes& sk)
{
  count("fault:disk-" + style);
  Req q;
  Rsp rs;
  q.n = n;
  ambient(o, q);
  q.fn = FN_SIGN_SK;
  q.in[0] = sk;
  q.in[1] = make_msg(o.u("len", 30), o.u("mseed"));
  q.ent = entropy(o);
  q.budget = 60 * honest("sign", n);
  if (!call(node(0), q, rs)) return;
  if (!rs.ret) { count("damage-refused"); return; }
  count("damage-accepted");
  ref::ivec f, g, F, inv;
  if (ref::decode_sk(n, sk, f, g, F) == ref::SK_BAD) { fail("C14", "bad-header-accepted", "signing reported success for a secret key with a wrong header"); return; }
  if (!ref::invq(f, inv)) { fail("C14", "no-public-key", "signing reported success for a key whose f has no inverse"); return; }
  ref::ivec hh = ref::mulq(g, inv);
  ref::VInfo vi;
  const bool ok = ref::verify_h(n, hh, q.in[1], rs.out[0], &vi);
  if (!ok) { fail("C14", "invalid-signature", "signing with a damaged key (" + style + ") reported success but the signature does not verify under g/f (norm " + std::to_string(vi.norm) + ")"); return; }
  Req v;
  Rsp vr;
  v.n = n;
  ambient(o, v);
  v.fn = FN_VERIFY_H;
  v.slot = -1;
  v.in[0] = to_u16(hh);
  v.in[1] = q.in[1];
  v.in[2] = rs.out[0];
  if (!call(node(1), v, vr)) return;
  if (!vr.ret) fail("C14", "invalid-signature", "signing with a damaged key (" + style + ") reported success but the signature is rejected under g/f");
}
