// The simulated system: signer and verifier nodes, their storage, the network
// between them, and the oracles.  Executes a plan (a list of operations with
// every choice written out) and reports the first violation of one property.
#pragma once
#include "common.hpp"
#include "node.hpp"
#include "ref.hpp"
#include <array>
#include <map>
#include <memory>
#include <set>

struct Op {
  std::string kind;
  std::vector<std::pair<std::string, std::string>> kv;
  Op() = default;
  explicit Op(const std::string& k) : kind(k) {}
  Op& set(const std::string& k, const std::string& v);
  Op& set(const std::string& k, const char* v) { return set(k, std::string(v)); }
  Op& set(const std::string& k, int64_t v) { return set(k, std::to_string(v)); }
  Op& set(const std::string& k, int v) { return set(k, std::to_string(v)); }
  Op& set(const std::string& k, uint64_t v) { return set(k, std::to_string(v)); }
  bool has(const std::string& k) const;
  std::string s(const std::string& k, const std::string& d = "") const;
  int64_t i(const std::string& k, int64_t d = 0) const;
  uint64_t u(const std::string& k, uint64_t d = 0) const;
  double f(const std::string& k, double d = 0) const;
  std::string str() const;
  static Op parse(const std::string& line);
};
struct Plan {
  std::string prop;
  uint64_t seed = 0;
  std::vector<Op> ops;
  std::string str() const;
  static Plan parse(const std::string& text);
};
struct Violation {
  std::string cls;  // stable class: used for gating, minimising and known findings
  std::string what;
  size_t op = 0;
};
struct Stats {
  std::map<std::string, uint64_t> n;    // counters, faults as "fault:<kind>"
  std::set<uint64_t> states, schedules;
  uint64_t edges = 0, ops = 0, calls = 0;
};
struct FixKey {
  int n;
  bytes pk, sk;
  ref::Key k;
  std::vector<std::pair<bytes, bytes>> sigs; // message, signature
};
struct SpecialPair { int n; std::string tag; ref::ivec f, g; };
struct Fixtures {
  std::vector<FixKey> keys[2];
  std::vector<SpecialPair> special, near;
  std::vector<uint64_t> slow[2]; // salts whose hash with an empty message takes many or few blocks
  std::vector<std::array<int, 5>> slot[2]; // key, and two coefficients of F after which the equation holds mod q at one root only
  std::vector<uint64_t> half[2]; // seeds of pairs whose F is reduced to a tie
  FixKey& key(int n, size_t i) { auto& v = keys[n == 1024]; return v[i % v.size()]; }
};
void load_fixtures(Fixtures& fx, const std::string& dir);
bytes make_msg(uint64_t len, uint64_t seed);
std::vector<std::string> split(const std::string& s, char c);

struct World {
  std::string prop;
  Fixtures& fx;
  Stats& st;
  bool want_log = false;
  std::string log;               // human readable trace (replay)
  Fnv h;                         // digest of everything observed
  std::unique_ptr<Violation> vio;
  std::vector<Op> resolved;      // ops with schedules made explicit

  World(const std::string& p, Fixtures& f, Stats& s) : prop(p), fx(f), st(s) {}
  void run(const Plan& p);

private:
  struct KeyRec { int n = 0; bytes pk, sk; ref::Key k; bool raw = false; };
  struct SigRec { int n = 0; std::string key; bytes msg, sig; bool ok = false; };
  std::map<std::string, KeyRec> keys;
  std::map<std::string, SigRec> sigs;
  std::map<int64_t, std::unique_ptr<Node>> nodes;
  std::map<bytes, std::string> salts;
  std::map<std::string, bytes> disk;   // durable objects of the signer
  std::map<std::string, uint64_t> honest_;
  size_t cur = 0;
  uint64_t state_ = 0;

  Node& node(int64_t i);
  Node& fresh();
  Node solo_;
  void fail(const std::string& p, const std::string& cls, const std::string& what);
  void note(const std::string& s);
  void count(const std::string& k, uint64_t v = 1) { st.n[k] += v; }
  void state(uint64_t a, uint64_t b = 0);
  void ambient(const Op& o, Req& q);
  Entropy entropy(const Op& o, const std::string& pre = "");
  enum Allow : unsigned { NONE = 0, EXC = 1, CRASH = 2, HANGOK = 4, ABORT = 8 };
  // false: the call did not complete normally (violation already recorded if it was not allowed)
  bool call(Node& nd, Req& q, Rsp& r, unsigned allow = NONE, const char* who = "");
  uint64_t honest(const std::string& what, int n);
  KeyRec* key(const Op& o, const std::string& f = "key");

  void op_key(const Op&);
  void op_keygen(const Op&);
  void op_rng(const Op&);
  void op_load(const Op&);
  void op_crash(const Op&);
  void op_sign(const Op&);
  void op_deliver(const Op&);
  void op_craft(const Op&);
  void op_codec(const Op&);
  void op_hostile(const Op&);
  void op_entfail(const Op&);
  void op_seedprobe(const Op&);
  void op_nomem(const Op&);
  void op_reads(const Op&);
  void op_manyrng(const Op&);
  void op_huge(const Op&);
  void op_give(const Op&);
  void op_par(const Op&);
  void op_hist(const Op&);
  void op_sz(const Op&);
  void op_sztie(const Op&);
  void op_damage(const Op&);
  void damaged(const Op&, int n, const std::string& style, const bytes& sk);
  void op_spec(const Op&);
  void op_old(const Op&);
  void op_disk(const Op&);

  void check_signature(const Op& o, KeyRec& k, const bytes& msg, const Req& q, const Rsp& r, const char* route);
  void check_keys(KeyRec& kr, const Req& q, const Rsp& r, const ref::ivec* F = nullptr, const ref::ivec* G = nullptr);
  bytes steer_sign(KeyRec& k, const bytes& msg, const std::string& spec, uint64_t seed, std::vector<std::string>* done = nullptr);
  bytes pair_bytes(int n, const ref::ivec& f, const ref::ivec& g, Rng& r);
  bool make_pair(int n, const std::string& spec, ref::ivec& f, ref::ivec& g);
  // one caller-level operation; what it needs beforehand goes to prelude
  std::vector<Req> unit(const std::string& spec, int th, std::vector<Req>& prelude, std::set<std::string>& have);
  bool salt_check(const Rsp& r, const std::string& where);
  bytes mutate_sig(const bytes& sig, const std::string& fault, Rng& r, const bytes* other);
  uint64_t obs(const Req& q, const Rsp& r);
};
ref::ivec to_ivec(const bytes& b);
bytes to_bytes(const ref::ivec& v);
bytes to_u16(const ref::ivec& v);
int maxabs(const ref::ivec& v);
const char* fn_name(uint64_t fn);
bool has_ret(uint64_t fn);
// stream bytes that make the integer sampler return z; empty if impossible
bool emit_z(ref::real mu, ref::real sigma, ref::real sigmin, long z, Rng& r, double preject, bytes& out, ref::real mu_err = -1);
Plan generate(const std::string& prop, uint64_t seed, const std::string& tier, bool asan, Fixtures& fx);
