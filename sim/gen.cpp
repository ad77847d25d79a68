// Seeded plan generators: every choice of a run is written into the plan.
#include "world.hpp"
#include <cmath>

namespace {
struct G {
  Rng r;
  Fixtures& fx;
  bool thorough, asan;
  Plan p;
  uint64_t uniq;
  int forced = 0;

  int n() { return forced ? forced : r.below(100) < 62 ? 512 : 1024; }
  uint64_t num() { return r.next() % 1000000007ull; }
  uint64_t ent() { ++uniq; return mix(uniq, 0xe17) % 1000000000000ull; }   // never repeats within a plan
  uint64_t amb() { return r.below(4) == 0 ? 0 : 1 + num(); }
  uint64_t nkeys(int n) { return fx.keys[n == 1024].size(); }
  uint64_t fix(int n) { return r.below(nkeys(n)); }
  uint64_t mlen()
  {
    switch (r.below(10)) {
      case 0: return 0;
      case 1: return 1;
      case 2: return 90 + r.below(12);   // around the hash block edge
      case 3: return 226 + r.below(12);
      case 4: return 1000 + r.below(6000);
      case 5: return r.below(8) == 0 ? 60000 + r.below(100000) : r.below(300);
      case 6: return 136 * (1 + r.below(8)) - (r.below(2) ? 40 : 0) + r.below(3) - 1;
      default: return r.below(120);
    }
  }
  Op& add(const std::string& k) { p.ops.push_back(Op(k)); return p.ops.back(); }
  std::string pick(std::initializer_list<const char*> l) { return *(l.begin() + (long)r.below(l.size())); }
  void key(const std::string& id, int n, int64_t f = -1) { add("key").set("id", id).set("n", n).set("fix", f < 0 ? (int64_t)fix(n) : f); }

  // one attempt of a steered signature
  std::string big(const char* t, int n, int64_t lim)
  {
    std::string s = t;
    for (uint64_t i = 0, m = 1 + r.below(3); i < m; i++) s += (i ? "," : "") + std::to_string(r.below((uint64_t)n)) + ":" + std::to_string(r.range(lim / 4, lim / (int64_t)m) * (r.below(2) ? 1 : -1));
    return s;
  }
  std::string good(int n)
  {
    const int64_t lim = n == 512 ? 5600 : 8000;
    switch (r.below(10)) {
      case 9: return "e" + std::to_string(-1 - (int64_t)r.below(3));
      case 0: return "n" + std::to_string(900 + r.below(99));
      case 1: return "n999." + std::to_string(r.below(6));
      case 2: return "f" + std::to_string(-(int64_t)r.below(3));
      case 3: return "f0";
      case 4: case 5: return big("s", n, lim);
      case 6: return big("o", n, lim);
      case 7: return r.below(3) ? "t" + std::to_string(r.below(70)) : "x";
      default: return "r" + std::to_string(r.below(60));
    }
  }
  std::string bad(int)
  {
    switch (r.below(6)) {
      case 5: return "e" + std::to_string(1 + r.below(3));
      case 0: return "n1000." + std::to_string(4 + r.below(6));
      case 1: return "n" + std::to_string(1002 + r.below(300));
      case 2: return "f" + std::to_string(1 + r.below(3));
      case 3: return "f1";
      default: return "n" + std::to_string(1300 + r.below(3000));
    }
  }
  std::string steer(int n)
  {
    std::string s;
    for (uint64_t i = 0, m = r.below(3); i < m; i++) s += bad(n) + "+";
    return s + good(n);
  }
  // now and then with a salt whose hash meets unusually many or few values that are refused
  void slow(Op& o)
  {
    if (r.below(6) == 0) { o.set("steer", "h" + std::to_string(r.below(1000)) + "+" + o.s("steer")); o.set("len", 0); }
  }
  void sign(Op& o, const std::string& k, int n, const std::string& route)
  {
    o.set("key", k).set("route", route).set("len", mlen()).set("mseed", num()).set("amb", amb());
    if (route == "sk") o.set("ent", ent());
    else o.set("slot", 0).set("rslot", 0);
    (void)n;
  }
  void setup_bt(const std::string& k, uint64_t raw = 0)
  {
    add("rng").set("rslot", 0).set("ent", ent()).set("amb", amb());
    Op& l = add("load").set("key", k).set("slot", 0).set("amb", amb());
    if (raw) l.set("raw", 1);
  }
  std::string pat() { switch (r.below(5)) { case 0: return "00"; case 1: return "ff"; case 2: return "80"; case 3: return hex(r.blob(1)); default: return hex(r.blob(1 + r.below(40))); } }

  // ---------------------------------------------------------------- C01
  void huge()
  {
    const int n1 = r.below(3) ? 512 : 1024;
    static const uint64_t base[] = { 1ull << 20, 1ull << 24, 1ull << 31, 1ull << 32, 1ull << 32, (1ull << 32) + (1ull << 20) };
    const uint64_t len = base[r.below(6)] + (r.below(4) ? r.below(6000) : r.below(2000000));
    std::string a;
    for (uint64_t j = 0, m = 1 + r.below(3); j < m; j++) {
      const uint64_t c = r.below(6);
      a += j ? "," : "";
      if (c < 2 && len > (1ull << 32) + (1 << 20)) a += "-" + std::to_string(1ull << 32);
      else if (c < 2 && len > (1ull << 31) + (1 << 20)) a += "-" + std::to_string(1ull << 31);
      else if (c == 2) a += (r.below(2) ? "+" : "-") + std::to_string(1 + r.below(2000));
      else if (c == 3) a += "a" + std::to_string(len - 1 - r.below(200));
      else if (c == 4) a += "a" + std::to_string(r.below(400000));
      else a += "a" + std::to_string(((len >> 20) ? (r.below(len >> 20) << 20) : 0) + r.below(900));
    }
    add("huge").set("n", n1).set("fix", fix(n1)).set("route", r.below(2) ? "sk" : "bt").set("len", len).set("mseed", num()).set("ent", ent()).set("amb", amb()).set("alts", a);
  }
  void c01(uint64_t i)
  {
    const int n1 = n();
    if (i % 24 == 9) huge();
    if (i % 24 == 7 || i % 240 == 11) { // a key straight from key generation
      const int kn = i % 240 == 11 ? 1024 : 512;
      std::string pre;
      switch (r.below(8)) {
        case 6: pre = "skew:" + std::to_string(r.below(1000)); break;
        case 3: pre = "edge:" + std::to_string(r.below(1000)); break;
        case 4: pre = "orth:" + std::to_string(r.below(1000)); break;
        case 5: pre = "near:" + std::to_string(r.below(1000)); break;
        case 0: pre = "special:" + std::to_string(r.below(64)); break;
        case 1: pre = "big:" + std::to_string(fix(kn)) + ":" + std::to_string(1 + r.below(6)); break;
        case 2: pre = "swap:" + std::to_string(fix(kn)); break;
        default: break;
      }
      Op& k = add("keygen").set("id", "kg").set("n", kn).set("mode", r.below(3) ? "api" : "raw").set("ent", ent()).set("amb", amb());
      if (!pre.empty()) k.set("pre", pre + "+key:" + std::to_string(fix(kn)));
      for (int j = 0; j < 3; j++) { Op& o = add("sign"); sign(o, "kg", kn, "sk"); o.set("id", "g" + std::to_string(j)); if (j) o.set("steer", good(kn)).set("sseed", num()); }
      setup_bt("kg");
      for (int j = 0; j < 3; j++) { Op& o = add("sign"); sign(o, "kg", kn, "bt"); }
      return;
    }
    key("a", n1);
    setup_bt("a");
    const uint64_t m = 4 + r.below(4);
    for (uint64_t j = 0; j < m; j++) {
      const std::string route = r.below(2) ? "sk" : "bt";
      const std::string id = "s" + std::to_string(j);
      Op& o = add("sign");
      sign(o, "a", n1, route);
      o.set("id", id);
      const uint64_t c = r.below(10);
      if (c < 6) { o.set("steer", steer(n1)).set("sseed", num()); slow(o); }
      else if (c == 6) o.set("pat", pat()).set("patlen", r.below(3000));
      else if (c == 7 && route == "sk") o.set("stuck", num());
      if (r.below(9) == 0) o.set("crash", 1 + r.below(n1 == 512 ? 170000 : 370000));
      if (r.below(3) == 0) add("deliver").set("sig", id).set("seed", num()).set("amb", amb()).set("dup", 1);
      if (r.below(6) == 0 || (j + 1 < m && p.ops[p.ops.size() - 1].has("crash"))) { add("crash").set("node", 0); setup_bt("a"); }
    }
  }
  // ---------------------------------------------------------------- C02
  void c02(uint64_t i)
  {
    const int n1 = n();
    if (i % 60 == 9) huge();
    if (i % 2) {
      for (int j = 0; j < 3; j++) {
        Op& o = add("craft").set("n", n1).set("seed", num()).set("amb", amb()).set("len", r.below(100));
        const uint64_t st = r.below(10);
        o.set("style", st < 4 ? "gauss" : st < 6 ? "sparse" : st < 8 ? "mid" : "huge");
        o.set("units", 10 + r.below(700));
        switch (r.below(8)) {
          case 0: o.set("delta", 0); break;
          case 1: o.set("delta", 1); break;
          case 2: o.set("delta", -1); break;
          case 3: o.set("delta", r.range(-40, 40)); break;
          case 4: o.set("delta", r.range(-3000000, 3000000)); break;
          case 5: o.set("wrap", (int64_t)(1 + r.below(n1 == 512 ? 3 : 7))).set("delta", -(int64_t)r.below(30000000)); break;
          case 6: o.set("edge", (int64_t)r.below(2)).set("delta", r.range(-2, 2)); break;
          default: o.set("wrap", (int64_t)(1 + r.below(n1 == 512 ? 3 : 7))).set("delta", r.range(-2147483648ll, 2147483648ll)); break;
        }
      }
      return;
    }
    key("a", n1);
    key("b", n1);
    for (int j = 0; j < 2; j++) {
      Op& o = add("sign");
      sign(o, j ? "b" : "a", n1, "sk");
      o.set("id", "s" + std::to_string(j));
      if (r.below(2)) { o.set("steer", good(n1)).set("sseed", num()); slow(o); }
    }
    for (int j = 0; j < 14; j++) {
      Op& o = add("deliver");
      const uint64_t c = r.below(3);
      const int64_t f = p.ops[0].i("fix");
      if (c == 0) o.set("key", "a").set("fix", f).set("no", r.below(8));
      else o.set("sig", c == 1 ? "s0" : "s1");
      o.set("seed", num()).set("amb", amb());
      o.set("other", r.below(2) ? "s1" : "s0");
      o.set("fault", pick({ "none", "flip", "flipbody", "fliptail", "flips", "byte", "zero", "ones", "trunc", "hdr", "salt", "swapsalt", "splice", "replay",
                            "coef", "neg", "negzero", "unary", "padbit", "short", "msgflip", "msgappend", "msgtrunc", "msgother", "pkflip", "pkunred", "otherpk" }));
      if (r.below(4) == 0) o.set("via", "h");
    }
  }
  // ---------------------------------------------------------------- C03
  void hostile(int n1)
  {
    Op& o = add("hostile").set("n", n1);
    const uint64_t c = r.below(10);
    if (c < 4) o.set("fn", "verify");
    else if (c < 5) o.set("fn", "verify_h");
    else if (c < 8) o.set("fn", "decsig");
    else if (c < 9) o.set("fn", "decpk");
    else o.set("fn", "decsk");
    o.set("style", pick({ "garbage", "mut", "edge", "edge", "run", "run" })).set("seed", num()).set("amb", amb()).set("place", r.below(3));
    if (c < 5 && r.below(40) == 0) o.set("len", (uint64_t)1 << (13 + r.below(9)));
  }
  void codec(int n1)
  {
    Op& o = add("codec").set("n", n1).set("seed", num()).set("amb", amb());
    switch (r.below(9)) {
      case 0: o.set("what", "pk").set("style", pick({ "uniform", "extreme", "near", "sparse" })); break;
      case 1: o.set("what", "sk").set("style", pick({ "uniform", "extreme", "near", "sparse" })); break;
      case 2: case 3: o.set("what", "sig").set("style", pick({ "extreme", "fit", "fit", "sparse", "near", "over", "gauss", "extreme" })).set("delta", r.below(3) ? r.range(-2, 2) : r.range(-700, 200)); break;
      case 4: o.set("what", "decpk").set("style", pick({ "random", "unred", "edge", "hdr", "uniform" })); break;
      case 5: o.set("what", "decsk").set("style", pick({ "uniform", "hdr", "minval" })); break;
      default:
        o.set("what", "decsig").set("style", pick({ "none", "random", "flip", "flipbody", "fliptail", "flips", "byte", "zero", "ones", "trunc", "hdr", "coef", "neg", "negzero", "unary", "padbit", "short" }));
        if (r.below(2)) {
          o.set("fit", 1).set("slack", r.below(3) ? r.below(3) : r.below(30));
          if (r.below(3) == 0) { o.set("last", 1 + r.below(3)); if (r.below(3) == 0) o.set("style", "negzero").set("slack", r.below(4)); }
        }
        break;
    }
  }
  void c03(uint64_t i)
  {
    const int n1 = n();
    for (int j = 0; j < 24; j++) hostile(n());
    for (int j = 0; j < 4; j++) codec(n());
    if (i % 4 == 0) {
      key("a", n1);
      setup_bt("a");
      Op& o = add("sign");
      sign(o, "a", n1, "sk");
      o.set("place", 1 + r.below(2));
      Op& o2 = add("sign");
      sign(o2, "a", n1, "bt");
      o2.set("place", 1 + r.below(2));
      if (r.below(2)) o2.set("steer", steer(n1)).set("sseed", num());
      for (int j = 0; j < 3; j++)
        add("damage").set("n", n1).set("fix", fix(n1)).set("seed", num()).set("amb", amb()).set("ent", ent()).set("len", r.below(60)).set("mseed", num()).set("style", pick({ "flip", "random", "zero", "ones", "mix" }));
    }
    if (i % 60 == 13 && !asan) add("keygen").set("n", 512).set("mode", "api").set("ent", ent()).set("amb", 1 + num()).set("place", 1 + r.below(2)).set("pre", "key:" + std::to_string(fix(512)));
  }
  // ---------------------------------------------------------------- C04
  void c04(uint64_t i)
  {
    if (i % 16 == 0) { add("spec").set("n", n()).set("what", r.below(2) ? "pk" : "sk").set("seed", num()); return; }
    for (int j = 0; j < 24; j++) codec(n());
    if (i % 3 == 0) {
      const int n1 = n();
      key("a", n1);
      Op& s = add("sign");
      sign(s, "a", n1, "sk");
      s.set("id", "s0").set("steer", r.below(2) ? "f0" : good(n1)).set("sseed", num());
      for (int j = 0; j < 6; j++) add("deliver").set("sig", "s0").set("seed", num()).set("amb", amb()).set("fault", pick({ "none", "negzero", "padbit", "fliptail", "pkunred", "hdr", "unary", "short" }));
    }
    if (i % 8 == 1) { const int n1 = n(); add("old").set("n", n1).set("fix", fix(n1)).set("amb", amb()); }
  }
  // ---------------------------------------------------------------- C05
  void c05(uint64_t i)
  {
    const int n1 = n();
    if (i % 20 == 3 || i % 200 == 5) {
      const int kn = i % 200 == 5 ? 1024 : 512;
      Op& k = add("keygen").set("id", "a").set("n", kn).set("mode", r.below(2) ? "api" : "raw").set("ent", ent()).set("amb", amb());
      switch (r.below(7)) {
        case 6: k.set("pre", "skew:" + std::to_string(r.below(1000)) + "+key:" + std::to_string(fix(kn))); break;
        case 5: k.set("pre", "orth:" + std::to_string(r.below(1000)) + "+key:" + std::to_string(fix(kn))); break;
        case 4: k.set("pre", "edge:" + std::to_string(r.below(1000)) + "+edge:" + std::to_string(r.below(1000)) + "+key:" + std::to_string(fix(kn))); break;
        case 0: k.set("pre", "special:" + std::to_string(r.below(64)) + "+key:" + std::to_string(fix(kn))); break;
        case 1: k.set("pre", "big:" + std::to_string(fix(kn)) + ":1+key:" + std::to_string(fix(kn))); break;
        default: break;
      }
      setup_bt("a", 1);
      Op& o = add("sign");
      sign(o, "a", kn, "sk");
      o.set("twin", 1);
      add("crash").set("node", 0);
      setup_bt("a", 1);
      Op& o2 = add("sign");
      sign(o2, "a", kn, "bt");
      o2.set("twin", 1);
      return;
    }
    for (int j = 0; j < 2; j++) add("codec").set("n", n1).set("seed", num()).set("amb", amb()).set("what", j ? "pk" : "sk").set("style", pick({ "uniform", "extreme", "near", "sparse" }));
    if (i % 2) { add("old").set("n", n1).set("fix", fix(n1)).set("amb", amb()).set("node", 0); }
    key("a", n1);
    setup_bt("a", 1);
    for (int j = 0; j < 3; j++) {
      Op& o = add("sign");
      sign(o, "a", n1, r.below(2) ? "sk" : "bt");
      o.set("id", "s" + std::to_string(j)).set("twin", 1);
      if (r.below(3) == 0) o.set("steer", steer(n1)).set("sseed", num());
      if (r.below(3) == 0) { add("crash").set("node", 0); setup_bt("a", r.below(2)); }
      else if (r.below(3) == 0) { Op& c = add("sign"); sign(c, "a", n1, "sk"); c.set("crash", 1 + r.below(170000)); setup_bt("a", 1); }
    }
    for (int j = 0; j < 3; j++) add("deliver").set("key", "a").set("fix", p.ops[2 + i % 2].i("fix")).set("no", r.below(8)).set("seed", num()).set("amb", amb());
  }
  // ---------------------------------------------------------------- C06
  void c06(uint64_t i)
  {
    const int kn = i % 9 == 4 ? 1024 : 512;
    auto k = [&] { return std::to_string(r.below(1000)); };
    auto one = [&]() -> std::string {
      switch (r.below(20)) {
        case 19: return "skew:" + k();
        case 17: return "orth:" + k();
        case 18: return "half:" + k();
        case 13: return "edge:" + k();
        case 14: case 15: case 16: return "near:" + k();
        case 0: return "zf:" + k();
        case 1: return "zg:" + k();
        case 2: return "eq:" + k();
        case 3: return "even:" + k();
        case 4: return "noninv:" + k();
        case 5: return "norm:" + k() + ":" + std::to_string(r.below(4));
        case 6: return "norm:" + k() + ":" + std::to_string(-(int64_t)r.below(3));
        case 7: return "dual:" + k() + ":" + std::to_string(1 + r.below(40));
        case 8: return "dual:" + k() + ":-" + std::to_string(r.below(20));
        case 9: return "big:" + k() + ":" + std::to_string(r.below(5));
        case 10: return "special:" + k();
        case 11: return "rnd:" + k();
        default: return "swap:" + k();
      }
    };
    std::string pre;
    if (r.below(6)) {
      for (uint64_t j = 0, m = 1 + r.below(3); j < m; j++) pre += one() + "+";
      pre += "key:" + k();
    }
    if (kn == 1024 && r.below(3) == 0) pre = "big:" + k() + ":" + std::to_string(1 + r.below(3)) + "+key:" + k();
    Op& o = add("keygen").set("n", kn).set("mode", pick({ "api", "raw", "raw", "mat" })).set("ent", ent()).set("amb", amb());
    if (!pre.empty()) o.set("pre", pre);
    if (i % 40 == 17) { o.set("crash", 1 + r.below(30000000)); Op c = p.ops.back(); c.kv.erase(c.kv.end() - 1); p.ops.push_back(c); }
  }
  // ---------------------------------------------------------------- C07
  void c07(uint64_t)
  {
    for (int j = 0; j < 5; j++) {
      const int n1 = n();
      Op& o = add("entfail").set("n", n1).set("fix", fix(n1)).set("fn", pick({ "sign", "sign", "keygen", "rng" })).set("ent", ent()).set("amb", amb()).set("place", r.below(3)).set("seed", num()).set("mseed", num());
      if (asan && o.s("fn") == "keygen") o.set("fn", "rng");
      if (r.below(3) == 0) o.set("fopen", 0);
      else o.set("fword", r.below(3) ? r.below(9) : r.below(40)).set("fcount", r.below(3) ? 1 : r.below(2) ? 1 + r.below(20) : 1000000);
      o.set("fkind", r.below(2));
      if (r.below(4) == 0) { add("crash").set("node", 0); }
    }
  }
  // ---------------------------------------------------------------- C08
  void c08(uint64_t i)
  {
    const int n1 = n();
    const std::string fn = i % 3 == 0 ? "rng" : i % 3 == 1 ? "keygen" : "sign";
    if (i % 2) { // used before: other operations first
      key("a", n1);
      for (int j = 0; j < 2; j++) { Op& o = add("sign"); sign(o, "a", n1, "sk"); }
    }
    { // the same stream however it is read
      std::string l;
      const bool lg = r.below(12) == 0;
      if (i % 16 == 3) { // long streams, by long and by very many reads
        const uint64_t c = r.below(4);
        const std::string l2 = c == 0 ? "150000x" + std::to_string(r.below(3) ? 8 + r.below(24) : 70 + r.below(30)) : c == 1 ? "1x" + std::to_string(66000 + r.below(80000)) : c == 2 ? "32x" + std::to_string(20000 + r.below(60000)) : std::to_string(1 + r.below(300)) + "x" + std::to_string(1 + r.below(9000));
        add("reads").set("n", n1).set("ent", ent()).set("amb", amb()).set("lens", l2);
      }
      if (i % 16 == 11) add("manyrng").set("n", n1).set("ent", ent()).set("amb", amb()).set("seed", num()).set("count", r.below(4) ? 1100 + r.below(1500) : 100 + r.below(400));
      for (uint64_t j = 0, m = 1 + r.below(lg ? 6 : 12); j < m; j++) l += (j ? "," : "") + std::to_string(lg ? 1 + r.below(60000) : r.below(4) == 0 ? 134 + r.below(5) : r.below(5) == 0 ? r.below(3) : 1 + r.below(700));
      add("reads").set("n", n1).set("ent", ent()).set("amb", amb()).set("lens", l);
    }
    Op& o = add("seedprobe").set("fn", fn).set("n", n1).set("fix", fix(n1)).set("ent", ent()).set("amb", amb()).set("seed", num());
    if (fn == "sign" && i % 9 != 2) o.set("bits", 48);
  }
  // ---------------------------------------------------------------- units (C09, C10, C15)
  std::string unit(bool heavy, bool sigonly, bool history)
  {
    const int n1 = n();
    const std::string N = std::to_string(n1), k = std::to_string(fix(n1));
    const std::string m = "/" + k + "/" + std::to_string(r.below(16) == 0 ? 10000 + r.below(100000) : r.below(3) ? r.below(200) : mlen() % 8000) + "/" + std::to_string(num());
    if (heavy) return "K512/" + std::to_string(fix(512)) + "/" + std::to_string(ent());
    const uint64_t c = r.below(sigonly ? 9 : 24);
    if (c < 4) return "S" + N + m + "/" + std::to_string(ent());
    if (c < 6) return "B" + N + m + "/" + std::to_string(ent());
    if (c < 8) return "b" + N + m;
    if (c < 9) return "S" + N + m + "/" + std::to_string(ent()) + "/" + std::to_string(r.below(2) ? 40 + r.below(400) : 1 + r.below(n1 * 30));
    if (c < 12 && r.below(3) == 0) return "W" + N + m + "/" + std::to_string(num());
    if (c < 12) return (r.below(3) ? "V" : "v") + N + "/" + k + "/" + std::to_string(r.below(8)) + "/" + (r.below(2) ? std::to_string(1 + num()) : "0");
    if (c < 14) return "L" + N + "/" + k;
    if (c == 14) return "P" + N + "/" + k;
    if (c == 15) return "D" + N + "/" + k;
    if (c == 16) return "E" + N + "/" + k + "/" + std::to_string(r.below(8));
    if (c == 17) return "G" + N + "/" + k;
    if (c == 18) return (r.below(2) ? "Q" : "q") + N + "/" + k;
    if (c == 19) return "H" + N + m + "/" + std::to_string(ent());
    if (c == 20) return "R" + N + "/" + std::to_string(1 + r.below(3000)) + "/" + std::to_string(ent());
    if (c == 21 && history && r.below(2)) return "A" + N + "/" + k + "/" + std::to_string(ent()) + "/" + std::to_string(r.below(r.below(2) ? 400000 : 2000)) + "/" + (r.below(8) ? "0" : std::to_string(1 + r.below(8)));
    if (c == 21) return history ? "F" + N + "/" + k + "/" + std::to_string(ent()) + "/" + std::to_string(r.below(9)) : "V" + N + "/" + k + "/1/0";
    if (c == 22) return "X" + N + "/" + k + "/" + std::to_string(num());
    char b[96];
    snprintf(b, sizeof b, "Z%d/%.17g/%.17g/%llu", n1, r.unit() * 100 - 50, 1.2982804 + r.unit() * 0.52, (unsigned long long)ent());
    return b;
  }
  Op& par(bool sigonly, bool heavy)
  {
    Op& o = add("par");
    const uint64_t T = 2 + r.below(3);
    const int keep = forced;
    if (r.below(3) == 0) forced = r.below(2) ? 512 : 1024; // all threads in the same instantiation
    // all threads make the same kind of call, on equal, nearly equal or other arguments
    if (!heavy && !sigonly && r.below(3) == 0) {
      forced = r.below(3) ? 512 : 1024;
      std::string base = unit(false, false, false);
      for (int x = 0; x < 4 && strchr("SBb", base[0]); x++) base = unit(false, false, false);
      for (uint64_t t = 0; t < T; t++) {
        std::string s;
        for (uint64_t j = 0, m = 1 + r.below(strchr("SBb", base[0]) ? 2 : 6); j < m; j++) {
          std::string u = base;
          const uint64_t c = r.below(4);
          if (c == 0) u = twin(base);
          if (c >= 2) for (int x = 0; x < 200 && (u == base || u[0] != base[0]); x++) u = unit(false, false, false);
          s += (j ? ";" : "") + u;
        }
        o.set("t" + std::to_string(t), s);
      }
      forced = keep;
      o.set("seed", num()).set("amb", amb()).set("mode", 2);
      if (r.below(3) == 0) { static const uint64_t ms[] = { 20, 60, 200, 700, 2000 }; o.set("mode", 1).set("mean", ms[r.below(5)]); }
      return o;
    }
    for (uint64_t t = 0; t < T; t++) {
      std::string s;
      for (uint64_t j = 0, m = 1 + r.below(3); j < m; j++) s += (j ? ";" : "") + unit(heavy && t == 0 && j == 0, sigonly, false);
      o.set("t" + std::to_string(t), s);
    }
    forced = keep;
    o.set("seed", num()).set("amb", amb());
    if (r.below(2) == 0) o.set("mode", 2);
    else { static const uint64_t ms[] = { 60, 200, 700, 2000, 8000, 30000, 120000 }; o.set("mode", 1).set("mean", ms[r.below(heavy ? 2 : 7) + (heavy ? 5 : 0)]); }
    return o;
  }
  // two key generations at once
  void par_keys()
  {
    Op& o = add("par");
    const std::string a = unit(true, false, false), b = r.below(4) ? unit(true, false, false) : a;
    o.set("t0", a).set("t1", b);
    if (r.below(3) == 0) o.set("t2", unit(false, false, false));
    o.set("seed", num()).set("amb", amb());
    if (r.below(3)) o.set("mode", 2);
    else { static const uint64_t ms[] = { 3000, 30000, 120000, 1000000 }; o.set("mode", 1).set("mean", ms[r.below(4)]); }
  }
  void c09(uint64_t i)
  {
    if (i % 80 == 29) { par_keys(); return; }
    if (i % 40 == 9) { par(false, true); return; }
    for (int j = 0; j < 3; j++) par(false, false);
  }
  std::string twin(const std::string& u)
  {
    std::string b = u.substr(0, u.find('~'));
    if (u != b && r.below(2)) return b;
    if (strchr("SBbVvWLPDEH", b[0]) && r.below(4)) {
      const char* in = strchr("LPDE", b[0]) ? "0" : strchr("Bb", b[0]) ? "1" : strchr("VvW", b[0]) ? (r.below(2) ? "2" : "0") : "0";
      if (strchr("SVW", b[0]) && r.below(4) == 0) in = "1";
      if (b[0] == 'v') in = r.below(2) ? "2" : "1";
      const uint64_t pos = r.below(3) == 0 ? 100000 - r.below(40) : r.below(3) == 0 ? r.below(80) : r.below(4000);
      return b + "~" + in + ":" + std::to_string(pos) + ":" + std::to_string(1u << r.below(8));
    }
    // another key, message or stream
    auto t = split(b, '/');
    if (t.size() < 2) return b;
    const size_t at = 1 + r.below(t.size() - 1);
    if (strchr("Z", b[0])) return b;
    if (t[at].find('.') == std::string::npos) t[at] = std::to_string(strtoull(t[at].c_str(), nullptr, 10) + 1 + (at == t.size() - 1 ? r.below(100000) : 0));
    std::string s;
    for (size_t j = 0; j < t.size(); j++) s += (j ? "/" : "") + t[j];
    return s;
  }
  void c10(uint64_t i)
  {
    if (i % 240 == 10 || (thorough && i % 480 == 130)) { // more calls than 16 bits count
      std::string u;
      do u = unit(false, i % 240 == 130, true); while (!strchr(i % 240 == 130 ? "SB" : i % 3 ? "Vv" : "VvPDEQqHZ", u[0]));
      std::string w = u;
      if (r.below(4)) { for (int j = 0; j < 9 && w == u; j++) w = twin(u); std::swap(u, w); } // mostly refused ones, then one that isn't
      add("u").set("u", u).set("amb", amb()).set("seed", num()).set("rep", 65600 + r.below(300));
      add("u").set("u", w).set("amb", amb()).set("seed", num());
      return;
    }
    const uint64_t m = 14 + r.below(12);
    // sometimes a narrow history: one key, one parameter set, one operation kind
    const bool same = r.below(4) == 0;
    std::string last;
    uint64_t place = 0;
    for (uint64_t j = 0; j < m; j++) {
      std::string u = unit(i % 30 == 8 && (j == m / 2 || j == m / 2 + 3), false, true);
      if (same && !last.empty() && r.below(2)) u = last;
      // the call before again, with one thing about it changed and its buffers where they were
      const bool tw = !last.empty() && r.below(3) == 0;
      if (tw) u = twin(last);
      last = u;
      if (!tw) place = r.below(3);
      Op& o = add("u").set("u", u).set("amb", amb()).set("seed", num());
      if (place) o.set("place", place);
      if (r.below(12) == 0) o.set("crash", 1 + r.below(100000));
      else if (r.below(5) == 0) o.set("plain", 1);
      if (i % 24 == 10 && j == 3 && !strchr("KAb", u[0])) { // a long history of one kind of call
        o.set("rep", strchr("SB", u[0]) ? 270 + r.below(60) : strchr("LVvWGH", u[0]) ? 300 + r.below(300) : 1030 + r.below(1000));
      }
    }
  }
  // ---------------------------------------------------------------- C11
  double centre()
  {
    auto below = [&](double v) { for (uint64_t i = 0, m = 1 + r.below(3); i < m; i++) v = std::nextafter(v, -1e9); return v; };
    auto above = [&](double v) { for (uint64_t i = 0, m = 1 + r.below(3); i < m; i++) v = std::nextafter(v, 1e9); return v; };
    switch (r.below(11)) {
      case 0: return 0;
      case 1: return r.unit();
      case 2: return r.unit() * 40 - 20;
      case 3: return (double)r.range(-300, 300);
      case 4: return below((double)r.range(-300, 300));
      case 5: return above((double)r.range(-300, 300));
      case 6: return (double)r.range(-300, 300) + 0.5;
      case 7: return r.unit() * 40000 - 20000;
      case 8: return (r.below(2) ? 1 : -1) * std::ldexp(1.0 + r.unit(), -(int)r.below(1060));
      case 9: return (r.unit() * 2 - 1) * 2e9;
      default: return r.unit() * 600 - 300;
    }
  }
  double dev(int n)
  {
    const double lo = (double)ref::P(n).sigmin;
    switch (r.below(8)) {
      case 0: return lo;
      case 1: return 1.8205;
      case 2: return 1.43300980528773;
      case 3: return std::nextafter(lo, 2);
      default: return lo + r.unit() * (1.8205 - lo);
    }
  }
  // a centre where the exponent is within rounding of a multiple of ln 2
  bool log2_edge(int n, double& mu, double& sigma, int& z0, int& b)
  {
    (void)n;
    const double L = 0.6931471805599453, I = 1. / L;
    for (int t = 0; t < 2000; t++) {
      z0 = (int)r.below(r.below(2) ? 8 : 19);
      b = (int)r.below(2);
      sigma = dev(n);
      const double t0 = 1. / (2. * sigma * sigma), t1 = 1. / (2. * 1.8205 * 1.8205);
      const double z = (double)(b + (2 * b - 1) * z0), t6 = (double)(z0 * z0) * t1;
      // at the listed multiples a contracted subtraction comes out below zero
      static const int low_at[] = { 15, 15, 30, 37, 39, 41, 43, 45 };
      const int k = r.below(2) ? 1 + (int)r.below(60) : low_at[r.below(8)];
      double d = sqrt((k * L + t6) / t0);
      double m = z < 0.5 ? z + d : z - d; // fraction part
      if (!(m >= 0 && m < 1)) { m = z + (z < 0.5 ? -d : d); if (!(m >= 0 && m < 1)) continue; }
      for (int s = -60; s <= 60; s++) {
        double c = m;
        for (int q = 0; q < std::abs(s); q++) c = std::nextafter(c, s < 0 ? -1.0 : 2.0);
        if (!(c >= 0 && c < 1)) continue;
        // as compilers may or may not contract multiplications and additions
        const double t2 = z - c, t3 = t2 * t2, xs[2] = { t3 * t0 - t6, std::fma(t3, t0, -((double)(z0 * z0) * t1)) };
        for (double x : xs) {
          const double sx = std::floor(x * I), r1 = x - sx * L, r2 = std::fma(-sx, L, x);
          const bool low = r1 < 0 || r2 < 0, high = r1 >= L || r2 >= L;
          if (low || (high && r.below(4) == 0) || (r.below(90) == 0 && (std::fabs(r2) < 1e-14 || std::fabs(r2 - L) < 1e-14))) { mu = c; return true; }
        }
      }
    }
    return false;
  }
  std::string dbl(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
  void c11(uint64_t i)
  {
    const int n1 = n();
    if (i % 3 == 0) {
      for (int j = 0; j < 4; j++) {
        double mu = centre(), sg = dev(n1);
        int z0 = (int)(r.below(3) ? r.below(6) : r.below(19)), b = (int)r.below(2);
        if (j == 0) log2_edge(n1, mu, sg, z0, b);
        add("sztie").set("n", n1).set("mu", dbl(mu)).set("sigma", dbl(sg)).set("z0", z0).set("b", b).set("seed", num()).set("amb", amb());
      }
      return;
    }
    for (int j = 0; j < 60; j++) {
      Op& o = add("sz").set("n", n1).set("mu", dbl(centre())).set("sigma", dbl(dev(n1))).set("seed", num()).set("amb", amb());
      o.set("style", pick({ "mix", "mix", "mix", "raw", "long", "const" }));
      if (o.s("style") == "const") o.set("byte", r.below(2) ? r.below(256) : (r.below(2) ? 0 : 255));
      if (r.below(4) == 0) o.set("tight", 1);
    }
  }
  // ---------------------------------------------------------------- C12
  void c12(uint64_t i)
  {
    const int n1 = n();
    if (i % 24 == 9) huge();
    key("a", n1);
    setup_bt("a");
    for (uint64_t j = 0, m = 3 + r.below(3); j < m; j++) {
      Op& o = add("sign");
      sign(o, "a", n1, r.below(2) ? "sk" : "bt");
      const uint64_t c = r.below(10);
      if (c < 6) { o.set("steer", steer(n1)).set("sseed", num()); slow(o); }
      else if (c == 6) o.set("pat", pat()).set("patlen", 40 + r.below(4000));
      else if (c == 7) { std::string s; for (uint64_t q = 0, k = 3 + r.below(5); q < k; q++) s += bad(n1) + "+"; o.set("steer", s + good(n1)).set("sseed", num()); }
      if (r.below(12) == 0) { Op& d = add("sign"); sign(d, "a", n1, "bt"); d.set("stop", 1 + r.below((uint64_t)n1 * 40)); }
    }
    if (i % 50 == 21) add("keygen").set("n", 512).set("mode", "mat").set("ent", ent()).set("pre", "key:" + std::to_string(fix(512)));
  }
  // ---------------------------------------------------------------- C21
  void c21(uint64_t i)
  {
    for (int j = 0; j < 8; j++) {
      const bool heavy = i % 24 == 5 && j == 0;
      std::string u = unit(heavy, false, true);
      if (!heavy && r.below(3) == 0) u = twin(u);
      Op& o = add("give").set("u", u).set("amb", amb()).set("seed", num());
      if (!heavy && r.below(4) == 0) o.set("threads", 1);
      const uint64_t c = r.below(7);
      if (c == 0) o.set("fopen", 0);
      else if (c == 1) o.set("fword", r.below(9)).set("fkind", r.below(2));
      else if (c == 2) o.set("stop", heavy ? 1 + r.below(60000) : 1 + r.below(30000));
      else if (c == 3) o.set("hdr", 1);
      if (heavy) { std::string s; for (uint64_t q = 0, m = 1 + r.below(3); q < m; q++) s += (q ? "+" : "") + pick({ "zf:", "zg:", "eq:", "even:", "even:", "noninv:", "rnd:" }) + std::to_string(r.below(1000)); o.set("pre", s); }
    }
    if (i % 8 == 3) { // key generation that refuses candidates, each for its own reason, before it accepts one
      Op& o = add("give").set("u", unit(true, false, true)).set("amb", amb()).set("seed", num());
      std::string s;
      for (uint64_t q = 0, m = 2 + r.below(3); q < m; q++) s += (q ? "+" : "") + pick({ "zf:", "eq:", "even:", "even:", "even:", "noninv:", "dual:" }) + std::to_string(r.below(1000));
      o.set("pre", s);
    }
    if (i % 6 == 1) { // key generation that ends early, in its candidates or its sampling
      std::string u = unit(true, false, true);
      Op& o = add("give").set("u", u).set("amb", amb()).set("seed", num());
      switch (r.below(3)) {
        case 0: o.set("stop", 1 + r.below(50000)); break;
        case 1: o.set("fword", r.below(9)); break;
        default: o.set("fopen", 0);
      }
    }
  }
  // ---------------------------------------------------------------- C13
  void c13(uint64_t i)
  {
    if (i % 12 == 5 || i % 150 == 7) {
      const int kn = i % 150 == 7 ? 1024 : 512;
      Op& o = add("keygen").set("n", kn).set("mode", "api").set("amb", amb()).set("ent", ent());
      if (i % 24 == 5 || i % 300 == 157) { o.set("pre", pick({ "half:", "half:", "orth:", "skew:", "skew:", "skew:" }) + std::to_string(r.below(1000)) + "+key:" + std::to_string(fix(kn))); return; }
      switch (r.below(4)) {
        case 0: o.set("stuck", r.below(2) ? 0 : num()); break;
        case 1: { std::string s; for (int j = 0; j < 6; j++) s += pick({ "zf:", "zg:", "eq:", "even:", "noninv:", "rnd:", "zz:" }) + std::to_string(r.below(1000)) + "+"; o.set("pre", s + "key:" + std::to_string(fix(kn))); break; }
        case 2: { std::string s; for (int j = 0; j < 3; j++) s += "dual:" + std::to_string(r.below(1000)) + ":" + std::to_string(1 + r.below(40)) + "+"; o.set("pre", s + "key:" + std::to_string(fix(kn))); break; }
        default: break;
      }
      return;
    }
    if (i % 48 == 31) { // hundreds of candidates to refuse
      Op& o = add("keygen").set("n", 512).set("mode", "api").set("amb", amb()).set("ent", ent());
      const std::string kind = i % 96 == 31 ? "even:" : pick({ "zf:", "noninv:", "dual:" });
      o.set("pre", kind + std::to_string(r.below(1000)) + (kind == "dual:" ? ":30" : "") + "*" + std::to_string(kind == "even:" ? 30 + r.below(40) : 258 + r.below(40)) + "+key:" + std::to_string(fix(512)));
      return;
    }
    const int n1 = n();
    if (i % 2) { for (int j = 0; j < 20; j++) hostile(n()); return; }
    key("a", n1);
    setup_bt("a");
    if (i % 32 == 12) { // hundreds of attempts to discard
      Op& o = add("sign");
      sign(o, "a", n1, r.below(2) ? "sk" : "bt");
      if (r.below(4)) o.set("live", 1).set("steer", bad(n1) + "*" + std::to_string(258 + r.below(200)) + "+" + bad(n1) + "*" + std::to_string(1 + r.below(60))).set("sseed", num());
      else o.set("live", 1).set("pat", pat()).set("patlen", (uint64_t)3000000 * (uint64_t)(n1 / 512) + r.below(1000000));
      return;
    }
    for (int j = 0; j < 4; j++) {
      Op& o = add("sign");
      sign(o, "a", n1, r.below(2) ? "sk" : "bt");
      o.set("live", 1);
      switch (r.below(5)) {
        case 0: o.set("pat", pat()).set("patlen", r.below(3) ? r.below(20000) : r.below(400000)); break;
        case 1: { std::string s; for (uint64_t q = 0, k = 1 + r.below(10); q < k; q++) s += bad(n1) + "+"; o.set("steer", s).set("sseed", num()); break; }
        case 2: o.set("steer", "r" + std::to_string(50 + r.below(48))).set("sseed", num()); break;
        case 3: if (o.s("route") == "sk") o.set("stuck", r.below(3) ? num() : r.below(2) ? uint64_t(0) : uint64_t(0xffffffff)); break;
        default: o.set("steer", good(n1)).set("sseed", num()); break;
      }
    }
  }
  // ---------------------------------------------------------------- C14
  void c14(uint64_t i)
  {
    if (i % 40 == 5) {
      const uint64_t c = i / 40, big = c % 3 != 0;
      add("damage").set("n", big ? 1024 : 512).set("seed", big ? c - c / 3 : c / 3).set("amb", amb()).set("ent", ent()).set("len", mlen() % 3000).set("mseed", num()).set("style", "slots");
      return;
    }
    for (int j = 0; j < 10; j++) {
      const int n1 = n();
      add("damage").set("n", n1).set("fix", fix(n1)).set("seed", num()).set("amb", amb()).set("ent", ent()).set("len", mlen() % 3000).set("mseed", num())
        .set("style", pick({ "flip", "flip", "flip", "flips", "byte", "hdr", "zero", "ones", "partzero", "torn", "torn512", "lostblock", "mix", "swapfg", "random", "shift", "minus", "qclose", "xf", "xnearf", "noninv", "noninvg" }));
    }
  }
  // ---------------------------------------------------------------- C15
  void c15(uint64_t i)
  {
    const int n1 = n();
    if (i % 3 == 0) { for (int j = 0; j < 3; j++) par(true, false); return; }
    if (i % 48 == 7) { // a long history of signatures in one process
      std::string u;
      do u = unit(false, true, false); while (strchr("VvWLPDEGQqHRXZ", u[0]) || split(u, '/').size() > 5);
      add("u").set("u", u).set("amb", amb()).set("seed", num()).set("rep", 270 + r.below(100));
      return;
    }
    key("a", n1);
    key("b", n1);
    setup_bt("a");
    for (uint64_t j = 0, m = 8 + r.below(8); j < m; j++) {
      const uint64_t c = r.below(12);
      if (c < 8) {
        Op& o = add("sign");
        sign(o, "a", n1, r.below(2) ? "sk" : "bt");
        if (r.below(3) == 0 && !o.s("mseed").empty()) o.set("len", 10).set("mseed", 1); // the same message again
        if (r.below(6) == 0) o.set("stop", 1 + r.below(4000));
        else if (r.below(8) == 0) o.set("crash", 1 + r.below(170000));
        else if (r.below(5) == 0 && o.s("route") == "sk") o.set("fword", r.below(8)).set("fcount", 1 + r.below(10));
        else if (r.below(4) == 0) o.set("steer", steer(n1)).set("sseed", num());
      } else if (c == 8) { add("crash").set("node", 0); setup_bt("a"); }
      else if (c == 9) add("entfail").set("n", n1).set("fix", fix(n1)).set("fn", "sign").set("ent", ent()).set("fword", r.below(8)).set("fcount", 1 + r.below(9)).set("seed", num()).set("mseed", num()).set("amb", amb());
      else if (c == 10) { add("rng").set("rslot", 0).set("ent", ent()); }
      else { Op& o = add("sign"); sign(o, "b", n1, "sk"); }
    }
  }
  // ---------------------------------------------------------------- C20
  void c20(uint64_t i)
  {
    const uint64_t m = 2 + r.below(3);
    for (uint64_t j = 0; j < m; j++) {
      const bool kg = j == 0 && i % 3 != 2;
      const int n1 = kg ? (i % 36 == 4 ? 1024 : 512) : n();
      Op& o = add("nomem").set("n", n1).set("fix", fix(n1)).set("ent", ent()).set("amb", amb()).set("len", r.below(3) ? r.below(300) : 300 + mlen()).set("mseed", num()).set("seed", num());
      if (r.below(2)) o.set("own", 1);
      o.set("fn", kg ? "keygen" : pick({ "sign", "sign", "sign_damaged", "verify", "verify_bad", "decsk", "decpk", "load", "rng" }));
      if (kg) {
        if (r.below(3) == 0) o.set("pre", "even:" + std::to_string(r.below(100)) + "+key:" + std::to_string(fix(n1)));
        if (r.below(3)) o.set("frac", r.below(1000000)); // anywhere in the call
        else o.set("at", r.below(2) ? r.below(40) : r.below(5000));
      } else o.set("at", r.below(3) ? r.below(3) : r.below(60));
      o.set("cnt", r.below(2) ? 1 : r.below(2) ? 1 + r.below(30) : 1000000000);
    }
  }
};
}
Plan generate(const std::string& prop, uint64_t seed, const std::string& tier, bool asan, Fixtures& fx)
{
  G g{ Rng(mix(seed, hash_str(prop))), fx, tier == "thorough", asan, {}, mix(seed, hash_str(prop) ^ 0xe17), 0 };
  g.p.prop = prop;
  g.p.seed = seed;
  const uint64_t i = seed;
  switch (atoi(prop.c_str() + 1)) {
    case 1: g.c01(i); break;
    case 2: g.c02(i); break;
    case 3: g.c03(i); break;
    case 4: g.c04(i); break;
    case 5: g.c05(i); break;
    case 6: g.c06(i); break;
    case 7: g.c07(i); break;
    case 8: g.c08(i); break;
    case 9: g.c09(i); break;
    case 21: g.c21(i); break;
    case 10: g.c10(i); break;
    case 11: g.c11(i); break;
    case 12: g.c12(i); break;
    case 13: g.c13(i); break;
    case 14: g.c14(i); break;
    case 15: g.c15(i); break;
    case 20: g.c20(i); break;
    default: fprintf(stderr, "unknown property\n"); exit(2);
  }
  return g.p;
}
