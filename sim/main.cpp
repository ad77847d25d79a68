// sim run  --prop C01 --tier quick --fix DIR --from A --step S --count N --cap SECONDS --out PREFIX [--list FILE]
// sim plan --fix DIR --file PLAN [--log]            run one plan
// sim plans --fix DIR < list of plan files          run many (minimiser)
// sim gen  --prop C01 --tier quick --fix DIR --from A   print the plan of a seed
// sim fixtures --keys N --sigs M --n 512 --from SEED    make fixtures from the code under test
#include "seam.hpp"
#include "world.hpp"
#include <atomic>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>

static std::map<std::string, std::string> opt;
static std::string arg(const std::string& k, const std::string& d = "") { auto i = opt.find(k); return i == opt.end() ? d : i->second; }
static std::string jesc(const std::string& s)
{
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o;
}
static double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string slurp(const std::string& f)
{
  std::ifstream in(f);
  if (!in) { fprintf(stderr, "cannot read %s\n", f.c_str()); exit(2); }
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
static void run_one(Fixtures& fx, const Plan& p, Stats& st, bool log, std::string* text, Plan* resolved, std::unique_ptr<Violation>& vio, uint64_t& dig)
{
  World w(p.prop, fx, st);
  w.want_log = log;
  w.run(p);
  dig = w.h.h;
  if (text) *text = w.log;
  if (resolved) { *resolved = p; resolved->ops = w.resolved; }
  vio = std::move(w.vio);
}
static int do_run()
{
  Fixtures fx;
  load_fixtures(fx, arg("fix"));
  const std::string prop = arg("prop"), tier = arg("tier", "quick"), out = arg("out");
  const uint64_t from = strtoull(arg("from", "1").c_str(), nullptr, 10), step = strtoull(arg("step", "1").c_str(), nullptr, 10), count = strtoull(arg("count", "10").c_str(), nullptr, 10);
  const double cap = atof(arg("cap", "60").c_str()), t0 = now();
  Stats st;
  std::ofstream dig(out + ".dig");
  std::map<std::string, int> seen;
  std::ofstream vf(out + ".vio");
  uint64_t runs = 0, nontriv = 0;
  // workers that share a list take its seeds one by one; none goes past a seed that failed
  struct List { std::atomic<uint64_t> next, stop; } own{ { 0 }, { ~0ull } }, *list = &own;
  if (opt.count("list")) {
    const int fd = open(arg("list").c_str(), O_RDWR);
    void* m = fd < 0 ? MAP_FAILED : mmap(nullptr, sizeof(List), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) { fprintf(stderr, "no seed list\n"); return 2; }
    list = (List*)m;
  }
  for (;;) {
    if (now() - t0 > cap) break;
    const uint64_t i = list->next.fetch_add(1);
    if (i >= count || i > list->stop.load()) break;
    const uint64_t seed = from + i * step;
    Plan p = generate(prop, seed, tier, built_with_asan(), fx), rp;
    std::unique_ptr<Violation> v;
    uint64_t d;
    const uint64_t calls0 = st.calls;
    run_one(fx, p, st, false, nullptr, &rp, v, d);
    runs++;
    nontriv += st.calls > calls0;
    dig << seed << " " << d << " " << (v ? v->cls : "-") << "\n";
    if (v && seen[v->cls]++ < 2) {
      const std::string f = out + "." + std::to_string(seed) + ".plan";
      std::ofstream(f) << p.str();
      std::ofstream(f + ".res") << rp.str();
      vf << seed << "\t" << v->cls << "\t" << v->op << "\t" << f << "\t" << jesc(v->what) << "\n";
      vf.flush();
      // one unlisted class is enough for a worker; keep going only past known ones
      bool known = false;
      for (auto& k : split(arg("known"), ',')) known |= k == v->cls;
      if (!known) {
        for (uint64_t c = list->stop.load(); i < c && !list->stop.compare_exchange_weak(c, i);) {}
        break;
      }
    }
  }
  std::ofstream j(out + ".json");
  j << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"ops\":" << st.ops << ",\"calls\":" << st.calls << ",\"edges\":" << st.edges << ",\"wall\":" << now() - t0 << ",\"counters\":{";
  bool first = true;
  for (auto& c : st.n) { j << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
  j << "}}\n";
  auto dump = [&](const char* ext, const std::set<uint64_t>& s) {
    std::ofstream o(out + ext, std::ios::binary);
    for (uint64_t v : s) o.write((const char*)&v, 8);
  };
  dump(".states", st.states);
  dump(".sched", st.schedules);
  std::ofstream c(out + ".cov", std::ios::binary);
  c.write((const char*)&g_shared->nguards, 4);
  for (uint32_t g = 1; g <= g_shared->nguards; g++) if (g_shared->hits[g].load()) c.write((const char*)&g, 4);
  return 0;
}
static int do_plan()
{
  Fixtures fx;
  load_fixtures(fx, arg("fix"));
  Plan p = Plan::parse(slurp(arg("file"))), rp;
  Stats st;
  std::unique_ptr<Violation> v;
  uint64_t d;
  std::string log;
  run_one(fx, p, st, opt.count("log"), &log, &rp, v, d);
  if (opt.count("log")) fputs(log.c_str(), stdout);
  if (opt.count("res")) std::ofstream(arg("res")) << rp.str();
  printf("RESULT %s %016lx %s\n", v ? v->cls.c_str() : "none", d, v ? v->what.c_str() : "");
  if (opt.count("stats")) for (auto& c : st.n) printf("%s %lu\n", c.first.c_str(), c.second);
  return 0;
}
static int do_plans()
{
  Fixtures fx;
  load_fixtures(fx, arg("fix"));
  std::string f;
  while (std::getline(std::cin, f)) {
    Plan p = Plan::parse(slurp(f)), rp;
    Stats st;
    std::unique_ptr<Violation> v;
    uint64_t d;
    run_one(fx, p, st, false, nullptr, &rp, v, d);
    std::ofstream(f + ".res") << rp.str();
    printf("RESULT %s %016lx %s\n", v ? v->cls.c_str() : "none", d, v ? v->what.c_str() : "");
    fflush(stdout);
  }
  return 0;
}
static int do_gen()
{
  Fixtures fx;
  load_fixtures(fx, arg("fix"));
  fputs(generate(arg("prop"), strtoull(arg("from").c_str(), nullptr, 10), arg("tier", "quick"), built_with_asan(), fx).str().c_str(), stdout);
  return 0;
}
static int do_fixtures()
{
  const int n = atoi(arg("n", "512").c_str()), keys = atoi(arg("keys").c_str()), sigs = atoi(arg("sigs").c_str());
  uint64_t seed = strtoull(arg("from").c_str(), nullptr, 10);
  Node nd;
  for (int k = 0; k < keys;) {
    Req q;
    q.n = n;
    q.fn = FN_KEYGEN;
    q.ent.seed = ++seed;
    q.budget = 30000000000ull;
    Rsp r = nd.call(q);
    if (r.status != ST_OK) return 2;
    ref::ivec f, g, F, G, h;
    if (ref::decode_sk(n, r.out[1], f, g, F) != ref::SK_OK || !ref::recompute_G(f, g, F, G)) continue;
    int m = 0;
    for (int x : G) m = std::max(m, std::abs(x));
    if (m > 127) continue;
    printf("key %s %s\n", hex(r.out[0]).c_str(), hex(r.out[1]).c_str());
    for (int s = 0; s < sigs; s++) {
      Req t;
      t.n = n;
      t.fn = FN_SIGN_SK;
      t.in[0] = r.out[1];
      t.in[1] = make_msg(s == 0 ? 0 : (uint64_t)(seed * 7 + (uint64_t)s * 31) % 200, seed * 100 + (uint64_t)s);
      t.ent.seed = seed * 1000 + (uint64_t)s;
      Rsp x = nd.call(t);
      if (x.status != ST_OK || !ref::verify(n, r.out[0], t.in[1], x.out[0])) return 2;
      printf("sig %s %s\n", hex(t.in[1]).c_str(), hex(x.out[0]).c_str());
    }
    fflush(stdout);
    k++;
  }
  return 0;
}
extern "C" const char* __asan_default_options() { return "exitcode=79:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:symbolize=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=79:symbolize=0:print_stacktrace=0"; }
int main(int ac, char** av)
{
  const int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality((unsigned long)(pers | ADDR_NO_RANDOMIZE)) >= 0) {
    setenv("SIM_REEXEC", "1", 1);
    execv("/proc/self/exe", av);
  }
  const std::string mode = ac > 1 ? av[1] : "";
  for (int i = 2; i < ac; i++) {
    std::string k = av[i];
    if (k.rfind("--", 0) != 0) continue;
    k = k.substr(2);
    if (i + 1 < ac && strncmp(av[i + 1], "--", 2) != 0) opt[k] = av[++i];
    else opt[k] = "1";
  }
  node_globals_init();
  if (mode == "run") return do_run();
  if (mode == "plan") return do_plan();
  if (mode == "plans") return do_plans();
  if (mode == "gen") return do_gen();
  if (mode == "fixtures") return do_fixtures();
  fprintf(stderr, "usage: sim run|plan|plans|gen|fixtures\n");
  return 2;
}
