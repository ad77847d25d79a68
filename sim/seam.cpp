// Node-side seams: preemption points, simulated time, entropy, random bytes,
// cooperative locks.  Compiled without coverage instrumentation.
#include "seam.hpp"
#include <cerrno>
#include <chrono>
#include <ctime>
#include <dlfcn.h>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <random>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <system_error>
#include <unistd.h>

Shared* g_shared = nullptr;
thread_local Task* t_cur = nullptr;
uint64_t g_default_budget = 4000000000ull;

static bool g_counting = false;
static std::vector<uint32_t> g_counts;
static std::vector<uint32_t> g_touched;
void count_guards(bool on)
{
  g_counting = on;
  if (on && g_counts.size() < MAX_GUARDS) g_counts.assign(MAX_GUARDS, 0);
}
const std::vector<std::pair<uint32_t, uint32_t>> take_guards()
{
  std::vector<std::pair<uint32_t, uint32_t>> r;
  for (auto g : g_touched) { r.push_back({ g, g_counts[g] }); g_counts[g] = 0; }
  g_touched.clear();
  return r;
}

// ---------------------------------------------------------------- scheduler
namespace {
struct Par {
  const ParReq* pr;
  ParRsp* out;
  std::vector<Task*> tasks;
  Rng rng{ 0 };
  size_t seg_i = 0;
  int current = -1;
  std::atomic<uint32_t> main_go{ 0 };
  uint64_t blocked_spins = 0;
};
Par* g_par = nullptr;

void fwait(std::atomic<uint32_t>& a)
{
  while (a.load(std::memory_order_acquire) == 0) syscall(SYS_futex, (uint32_t*)&a, FUTEX_WAIT, 0, nullptr, nullptr, 0);
  a.store(0, std::memory_order_relaxed);
}
void fwake(std::atomic<uint32_t>& a)
{
  a.store(1, std::memory_order_release);
  syscall(SYS_futex, (uint32_t*)&a, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
void set_limit(Task* t)
{
  uint64_t l = ~0ull;
  if (t->rq) {
    l = t->op_base + (t->rq->budget ? t->rq->budget : g_default_budget);
    if (t->rq->crash_edge) l = std::min(l, t->op_base + t->rq->crash_edge);
  }
  l = std::min(l, t->quota_end);
  t->limit = l;
}
// next thread to run and its quantum; every decision is recorded
int decide(int t, uint64_t quota)
{
  Par& P = *g_par;
  Task* k = P.tasks[(size_t)t];
  k->quota_end = quota == 0 ? ~0ull : k->edges + quota;
  k->seg = P.out->segs.size();
  k->seg_from = k->edges;
  P.out->segs.push_back({ (uint64_t)t, quota });
  return t;
}
int choose(int from, bool from_alive)
{
  Par& P = *g_par;
  const int T = (int)P.tasks.size();
  auto alive = [&](int i) { return !P.tasks[(size_t)i]->done; };
  int any = 0;
  for (int i = 0; i < T; i++) any += alive(i);
  if (!any) return -1;
  while (P.seg_i < P.pr->segs.size()) {
    const Seg& s = P.pr->segs[P.seg_i++];
    if (s.t < (uint64_t)T && alive((int)s.t)) return decide((int)s.t, s.edges);
  }
  if (P.pr->mode == 1) {
    int k = (int)P.rng.below((uint64_t)any), pick = -1;
    for (int i = 0; i < T; i++) if (alive(i) && k-- == 0) { pick = i; break; }
    // log-uniform quantum around the mean
    uint64_t q = P.pr->mean >> 4;
    q = 1 + (q << P.rng.below(9)) / 2 + P.rng.below(q + 16);
    return decide(pick, q);
  }
  // explicit schedule over / targeted: next thread round robin, run to its end or target
  for (int d = 1; d <= T; d++) {
    int i = ((from < 0 ? T - 1 : from) + d) % T;
    if (i == from && !from_alive) continue;
    if (alive(i)) return decide(i, 0);
  }
  return -1;
}
void hand_over(Task* t, bool finished)
{
  Par& P = *g_par;
  if (finished) t->done = true;
  int nx = choose(t->id, !finished);
  if (nx < 0) { fwake(P.main_go); return; }
  Task* n = P.tasks[(size_t)nx];
  set_limit(n);
  if (n == t) return;
  P.out->switches++;
  P.current = nx;
  fwake(n->go);
  if (!finished) fwait(t->go);
}
[[gnu::noinline]] void slow(Task* t, uint32_t guard)
{
  if (t->rq) {
    const uint64_t used = t->edges - t->op_base;
    if (t->rq->crash_edge && used >= t->rq->crash_edge) _exit(EXIT_CRASH);
    const uint64_t b = t->rq->budget ? t->rq->budget : g_default_budget;
    if (used >= b) _exit(EXIT_HANG);
  }
  if (g_par && t->edges >= t->quota_end) {
    g_par->out->site_hash = mix(g_par->out->site_hash, ((uint64_t)guard << 8) | (uint64_t)t->id);
    t->quota_end = ~0ull;
    hand_over(t, false);
  }
  set_limit(t);
}
[[gnu::noinline]] void counted(Task* t, uint32_t g)
{
  if (g_counting && !g_par) {
    if (g_counts[g]++ == 0) g_touched.push_back(g);
  }
  if (t->cnt && g_par) {
    uint32_t c = ++t->cnt[g];
    for (size_t i = 0; i < t->targets.size(); i++)
      if (t->targets[i].edges == (((uint64_t)g << 24) | (c & 0xffffff))) {
        t->targets.erase(t->targets.begin() + (long)i);
        g_par->out->site_hash = mix(g_par->out->site_hash, ((uint64_t)g << 8) | (uint64_t)t->id);
        if (t->seg < g_par->out->segs.size()) g_par->out->segs[t->seg].edges = t->edges - t->seg_from;
        hand_over(t, false);
        set_limit(t);
        break;
      }
  }
}
// called when a cooperative lock is busy
void yield_blocked()
{
  Task* t = t_cur;
  if (!t || !g_par) _exit(EXIT_HANG); // self-deadlock
  Par& P = *g_par;
  P.out->blocked++;
  if (++P.blocked_spins > 1000000) _exit(EXIT_HANG); // deadlock
  // run someone else
  const int T = (int)P.tasks.size();
  for (int d = 1; d < T; d++) {
    int i = (t->id + d) % T;
    if (P.tasks[(size_t)i]->done) continue;
    Task* n = P.tasks[(size_t)i];
    n->quota_end = n->edges + 200; // let it make progress, then come back
    set_limit(n);
    P.out->switches++;
    P.current = i;
    fwake(n->go);
    fwait(t->go);
    return;
  }
  _exit(EXIT_HANG);
}
}

void task_begin_op(Task* t, const Req* rq, Rsp* rs)
{
  t->rq = rq;
  t->rs = rs;
  t->op_base = t->edges;
  t->stream_pos = 0;
  set_limit(t);
}
void task_end_op(Task* t)
{
  t->rs->edges = t->edges - t->op_base;
  t->rs->stream_len = t->stream_pos;
  t->rq = nullptr;
  set_limit(t);
}

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
  static uint32_t n = 0;
  for (uint32_t* p = start; p < stop; p++)
    if (!*p) *p = ++n;
  if (n >= MAX_GUARDS / 2) { fprintf(stderr, "too many guards\n"); _exit(EXIT_INFRA); }
  extern uint32_t g_nguards;
  g_nguards = n;
}
uint32_t g_nguards = 0;
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
  Task* t = t_cur;
  if (!t) return;
  const uint32_t g = *guard;
  if (g_shared) {
    auto& h = g_shared->hits[g];
    uint32_t v = h.load(std::memory_order_relaxed);
    if (v == 0) h.store(1, std::memory_order_relaxed);
  }
  ++t->edges;
  if (t->counting) [[unlikely]] counted(t, g);
  if (t->edges >= t->limit) [[unlikely]] slow(t, g);
}

// ---------------------------------------------------------------- big integers
// Steps are counted at edges of target code, none of which are in libgmp.  An
// operation on large numbers counts as the steps it would take there, so that
// simulated time passes, and budgets run out, when numbers grow without limit.
static inline void limbs(uint64_t n)
{
  if (Task* t = t_cur) t->edges += n / 8;
}
static inline uint64_t sz(const void* x) { int v; memcpy(&v, (const char*)x + 4, 4); return (uint64_t)std::abs(v); }
#define GMP3(name, cost)                                                              \
  extern "C" void name(void* r, const void* a, const void* b)                         \
  {                                                                                   \
    static const auto real = (void (*)(void*, const void*, const void*))dlsym(RTLD_NEXT, #name); \
    limbs(cost);                                                                      \
    real(r, a, b);                                                                    \
  }
#define GMPS(name)                                                                    \
  extern "C" void name(void* r, const void* a, unsigned long b)                       \
  {                                                                                   \
    static const auto real = (void (*)(void*, const void*, unsigned long))dlsym(RTLD_NEXT, #name); \
    limbs(sz(a) + (b >> 6));                                                          \
    real(r, a, b);                                                                    \
  }
GMP3(__gmpz_mul, sz(a) * sz(b))
GMP3(__gmpz_add, sz(a) + sz(b))
GMP3(__gmpz_sub, sz(a) + sz(b))
GMP3(__gmpz_tdiv_q, sz(a) * (1 + sz(b)))
GMPS(__gmpz_mul_2exp)
GMPS(__gmpz_fdiv_q_2exp)

// ---------------------------------------------------------------- shared memory
// Flavour "mem" also reports loads and stores, and its memory block calls come
// here.  An access to static data or to the heap is a pre-emption point of its
// own; accesses to stacks and argument buffers are not.
// Without address randomisation the heap follows the static data directly.
extern "C" char __data_start;
void shared_heap_init()
{
  mallopt(M_ARENA_MAX, 1); // all threads allocate from that heap
  mallopt(M_MMAP_THRESHOLD, 1 << 26);
}
static inline bool shared_addr(uintptr_t a)
{
  return a < 0x7f0000000000ull && a >= (uintptr_t)&__data_start && a < (uintptr_t)sbrk(0);
}
[[gnu::noinline]] static void shared_point(Task* t, uintptr_t pc, uint32_t k)
{
  const uint32_t g = MAX_GUARDS / 2 + (uint32_t)(mix(pc, k) % (MAX_GUARDS / 2));
  ++t->edges;
  if (t->counting) counted(t, g);
  if (t->edges >= t->limit) slow(t, g);
}
static inline void access(const void* p, void* pc)
{
  Task* t = t_cur;
  if (!t || !t->rq) return;
  if (shared_addr((uintptr_t)p)) [[unlikely]] shared_point(t, (uintptr_t)pc, 0);
}
#define ACC(n) \
  extern "C" void __sanitizer_cov_load##n(void* p) { access(p, __builtin_return_address(0)); } \
  extern "C" void __sanitizer_cov_store##n(void* p) { access(p, __builtin_return_address(0)); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#undef ACC
// block operations of library code, in two halves with a pre-emption point before, between and after
template<typename F>
static void blocks(const void* a, const void* b, size_t n, void* pc, F f)
{
  Task* t = t_cur;
  if (!t || !t->rq || !(shared_addr((uintptr_t)a) || shared_addr((uintptr_t)b))) { f(0, n); return; }
  shared_point(t, (uintptr_t)pc, 1);
  f(0, n / 2);
  shared_point(t, (uintptr_t)pc, 2);
  f(n / 2, n - n / 2);
  shared_point(t, (uintptr_t)pc, 3);
}
extern "C" void* simmem_memcpy(void* d, const void* s, size_t n)
{
  blocks(d, s, n, __builtin_return_address(0), [&](size_t o, size_t l) { memcpy((char*)d + o, (const char*)s + o, l); });
  return d;
}
extern "C" void* simmem_memmove(void* d, const void* s, size_t n)
{
  if ((uintptr_t)d - (uintptr_t)s < n || (uintptr_t)s - (uintptr_t)d < n) return memmove(d, s, n);
  return simmem_memcpy(d, s, n);
}
extern "C" void* simmem_memset(void* d, int c, size_t n)
{
  blocks(d, d, n, __builtin_return_address(0), [&](size_t o, size_t l) { memset((char*)d + o, c, l); });
  return d;
}
extern "C" int simmem_memcmp(const void* a, const void* b, size_t n)
{
  int r = 0;
  blocks(a, b, n, __builtin_return_address(0), [&](size_t o, size_t l) { if (!r) r = memcmp((const char*)a + o, (const char*)b + o, l); });
  return r;
}
extern "C" int simmem_bcmp(const void* a, const void* b, size_t n) { return simmem_memcmp(a, b, n); }

// ---------------------------------------------------------------- par blocks
namespace {
struct ThreadArg {
  Task* t;
  const std::vector<Req>* reqs;
  std::vector<Rsp>* rsps;
  void (*runner)(const Req&, Rsp&, Task*);
};
void* thread_main(void* p)
{
  auto* a = (ThreadArg*)p;
  fwait(a->t->go);
  for (size_t i = 0; i < a->reqs->size(); i++) a->runner((*a->reqs)[i], (*a->rsps)[i], a->t);
  hand_over(a->t, true);
  fwait(a->t->go); // thread exit (and its thread_local destructors) happens in id order at the end
  return nullptr;
}
}
void par_run(const ParReq& pr, ParRsp& out, void (*runner)(const Req&, Rsp&, Task*))
{
  Par P;
  P.pr = &pr;
  P.out = &out;
  P.rng = Rng(pr.seed);
  const size_t T = pr.th.size();
  std::vector<Task> tasks(T);
  std::vector<ThreadArg> args(T);
  out.th.resize(T);
  g_par = &P;
  std::vector<pthread_t> tid(T);
  std::vector<std::vector<uint32_t>> cnts(T);
  for (size_t i = 0; i < T; i++) {
    tasks[i].id = (int)i;
    if (pr.mode == 2) {
      cnts[i].assign(MAX_GUARDS, 0);
      tasks[i].cnt = cnts[i].data();
      tasks[i].counting = true;
      for (auto& s : pr.targets) if (s.t == i) tasks[i].targets.push_back(s);
    }
    P.tasks.push_back(&tasks[i]);
    out.th[i].resize(pr.th[i].size());
    args[i] = { &tasks[i], &pr.th[i], &out.th[i], runner };
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 64u << 20);
    if (pthread_create(&tid[i], &at, thread_main, &args[i]) != 0) _exit(EXIT_INFRA);
    pthread_attr_destroy(&at);
  }
  int first = choose(-1, false);
  if (first >= 0) {
    set_limit(&tasks[(size_t)first]);
    P.current = first;
    fwake(tasks[(size_t)first].go);
    fwait(P.main_go);
  }
  for (size_t i = 0; i < T; i++) {
    fwake(tasks[i].go);
    pthread_join(tid[i], nullptr);
  }
  g_par = nullptr;
}

// ---------------------------------------------------------------- random bytes
// while it lives, this thread is the simulator's own: nothing it allocates is the library's
struct Aside { Task* t; Aside() : t(t_cur) { t_cur = nullptr; } ~Aside() { t_cur = t; } };
namespace simseam {
void on_seed(const uint8_t* p, size_t n)
{
  if (Task* t = t_cur; t && t->rq) {
    Aside a;
    t->rs->seeds++;
    t->rs->seed.assign(p, p + n);
  }
}
void on_hash() {}
void on_random(uint8_t* out, size_t len)
{
  Task* t = t_cur;
  if (!t || !t->rq) return;
  const Steer& s = t->rq->st;
  const uint64_t p0 = t->stream_pos;
  const uint64_t a = s.prefix.size(), b = a + s.pat_len;
  if (b > 0 || s.tail) {
    for (size_t i = 0; i < len; i++) {
      const uint64_t p = p0 + i;
      if (p < a) out[i] = s.prefix[p];
      else if (p < b) out[i] = s.pat.empty() ? 0 : s.pat[(p - a) % s.pat.size()];
      else if (s.tail) out[i] = (uint8_t)(mix(s.tail_seed, p / 8) >> (8 * (p % 8)));
    }
  }
  t->stream_pos += len;
  if (s.stop_at && t->stream_pos >= s.stop_at) {
    if (s.record) { Aside x; t->rs->stream.insert(t->rs->stream.end(), out, out + len); }
    t->rs->stop_fired = 1;
    throw std::runtime_error("sim: random byte delivery aborted");
  }
  if (s.record && t->rs->stream.size() < (64u << 20)) { Aside x; t->rs->stream.insert(t->rs->stream.end(), out, out + len); }
}
}

// ---------------------------------------------------------------- entropy
namespace {
void ent_throw(const Entropy& e, const char* what)
{
  if (e.fail_kind == 1) throw std::system_error(std::error_code(EIO, std::generic_category()), what);
  throw std::runtime_error(what);
}
uint32_t ent_word(Task* t)
{
  const Entropy& e = t->rq->ent;
  const uint64_t i = t->rs->words++;
  if (e.fail_word >= 0 && (int64_t)i >= e.fail_word && (int64_t)i < e.fail_word + e.fail_count) {
    t->rs->fail_fired++;
    ent_throw(e, "random_device could not be read");
  }
  if (e.mode == 1) return (uint32_t)e.stuck;
  uint32_t w = (uint32_t)(mix(e.seed ^ 0xe27a0b1dull, i) >> 16);
  if (e.flip_word == (int64_t)i) { w ^= (uint32_t)e.flip_mask; t->rs->flip_fired++; }
  return w;
}
bool ent_bytes(uint8_t* p, size_t n) // getrandom & co: same source, four bytes a word
{
  Task* t = t_cur;
  const Entropy& e = t->rq->ent;
  for (size_t o = 0; o < n; o += 4) {
    if (e.fail_word >= 0 && (int64_t)t->rs->words >= e.fail_word && (int64_t)t->rs->words < e.fail_word + e.fail_count) {
      t->rs->words++;
      t->rs->fail_fired++;
      return false;
    }
    uint32_t w = ent_word(t);
    memcpy(p + o, &w, std::min<size_t>(4, n - o));
  }
  return true;
}
}
int64_t g_devices = 0; // entropy sources open now
void std::random_device::_M_init(const std::string&)
{
  Task* t = t_cur;
  if (!t || !t->rq) return;
  const uint64_t i = t->rs->opens++;
  if (t->rq->ent.fail_open == (int64_t)i) {
    t->rs->fail_fired++;
    ent_throw(t->rq->ent, "random_device could not be opened");
  }
  g_devices++;
}
void std::random_device::_M_fini() { g_devices--; }
std::random_device::result_type std::random_device::_M_getval()
{
  Task* t = t_cur;
  if (!t || !t->rq) return 0;
  return ent_word(t);
}
double std::random_device::_M_getentropy() const noexcept { return 32.0; }

extern "C" ssize_t getrandom(void* p, size_t n, unsigned fl)
{
  if (t_cur && t_cur->rq) {
    if (!ent_bytes((uint8_t*)p, n)) { errno = EIO; return -1; }
    return (ssize_t)n;
  }
  return syscall(SYS_getrandom, p, n, fl);
}
extern "C" int getentropy(void* p, size_t n)
{
  if (t_cur && t_cur->rq) {
    if (!ent_bytes((uint8_t*)p, n)) { errno = EIO; return -1; }
    return 0;
  }
  return syscall(SYS_getrandom, p, n, 0) == (long)n ? 0 : -1;
}

// ---------------------------------------------------------------- heap
#ifndef SIM_ASAN
// The plan can refuse any allocation made inside library code (GMP's included).
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
static bool in_gmp(void* pc)
{
  static const std::pair<uintptr_t, uintptr_t> at = [] {
    std::pair<uintptr_t, uintptr_t> g{ 1, 0 };
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* out) {
      if (!i->dlpi_name || !strstr(i->dlpi_name, "libgmp.so")) return 0;
      for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) *(std::pair<uintptr_t, uintptr_t>*)out = { i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz };
      return 1;
    }, &g);
    return g;
  }();
  return (uintptr_t)pc >= at.first && (uintptr_t)pc < at.second;
}
static bool alloc_refused(void* pc)
{
  Task* t = t_cur;
  if (!t || !t->rq || !t->rs) return false;
  int64_t i = (int64_t)t->rs->allocs++;
  if (t->rq->alloc_own) { // only those not made by libgmp count
    if (in_gmp(pc)) return false;
    i = (int64_t)t->rs->allocs_own++;
  }
  if (t->rq->alloc_fail < 0 || i < t->rq->alloc_fail || i >= t->rq->alloc_fail + t->rq->alloc_count) return false;
  t->rs->alloc_fired++;
  return true;
}
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);
// what library code allocated and did not free
namespace {
constexpr size_t LIVE = 1 << 20;
struct Live { uintptr_t p; size_t n; };
Live* g_live = nullptr;
uint64_t g_live_n = 0, g_live_bytes = 0;
bool g_live_full = false;
size_t live_slot(uintptr_t p) { return (size_t)((p >> 4) * 0x9e3779b97f4a7c15ull >> 44); }
void* note(void* p)
{
  if (!g_live || !p || !t_cur || !t_cur->rq) return p;
  if (g_live_n > LIVE / 2) { g_live_full = true; return p; }
  size_t i = live_slot((uintptr_t)p);
  while (g_live[i].p) i = (i + 1) % LIVE;
  g_live[i] = { (uintptr_t)p, malloc_usable_size(p) };
  g_live_n++;
  g_live_bytes += g_live[i].n;
  return p;
}
void forget(void* p)
{
  if (!g_live || !p || !g_live_n) return;
  size_t i = live_slot((uintptr_t)p);
  while (g_live[i].p && g_live[i].p != (uintptr_t)p) i = (i + 1) % LIVE;
  if (!g_live[i].p) return;
  g_live_n--;
  g_live_bytes -= g_live[i].n;
  for (size_t j = i;;) { // close the gap
    g_live[i].p = 0;
    for (;;) {
      j = (j + 1) % LIVE;
      if (!g_live[j].p) return;
      const size_t k = live_slot(g_live[j].p);
      if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
      break;
    }
    g_live[i] = g_live[j];
    i = j;
  }
}
}
void live_report(Rsp& r)
{
  r.live_bytes = g_live_bytes;
  r.live_blocks = g_live_full ? ~0ull : g_live_n;
  extern int64_t g_devices;
  int64_t fds = 0;
  for (int i = 0; i < 256; i++) fds += fcntl(i, F_GETFD) >= 0;
  r.live_devices = (uint64_t)(g_devices + fds);
}
void live_on()
{
  if (!g_live) g_live = (Live*)mmap(nullptr, LIVE * sizeof(Live), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
extern "C" void* malloc(size_t n) { if (alloc_refused(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; } return note(__libc_malloc(n)); }
extern "C" void* calloc(size_t a, size_t b) { if (alloc_refused(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; } return note(__libc_calloc(a, b)); }
extern "C" void* realloc(void* p, size_t n)
{
  if (alloc_refused(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; }
  void* q = __libc_realloc(p, n);
  if (q || !n) { forget(p); note(q); }
  return q;
}
extern "C" void* memalign(size_t a, size_t n) { if (alloc_refused(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; } return note(__libc_memalign(a, n)); }
extern "C" void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); } // own: libgmp asks for none
extern "C" int posix_memalign(void** p, size_t a, size_t n)
{
  void* q = memalign(a, n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
extern "C" void free(void* p)
{
  forget(p);
  __libc_free(p);
}
#else
void live_report(Rsp&) {}
void live_on() {}
#endif

// ---------------------------------------------------------------- clock
static int64_t sim_now(Task* t)
{
  t->rs->clock_reads++;
  return SIM_EPOCH_NS + t->rq->amb.clock_skew + (int64_t)(t->edges - t->op_base) * t->rq->amb.clock_rate;
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
  if (t_cur && t_cur->rq) {
    int64_t v = sim_now(t_cur);
    ts->tv_sec = v / 1000000000;
    ts->tv_nsec = v % 1000000000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
extern "C" int gettimeofday(struct timeval* __restrict tv, void* __restrict) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t* p) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}

// ---------------------------------------------------------------- the rest of the surroundings
// Environment variables, process and thread numbers, libc's random numbers and the
// time stamp counter: whatever library code asks of them is the plan's choice.
static uint64_t surroundings(uint64_t what)
{
  t_cur->rs->clock_reads++;
  return mix(t_cur->rq->amb.poison, 0x5a0 + what);
}
extern "C" char* getenv(const char* n) noexcept
{
  if (t_cur && t_cur->rq) {
    static char one[] = "1", zero[] = "0", empty[] = "";
    const uint64_t v = t_cur->rq->amb.poison ? surroundings(1) % 6 : 0;
    return v == 1 ? one : v == 2 ? zero : v == 3 ? empty : nullptr;
  }
  const size_t l = strlen(n);
  for (char** e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  return nullptr;
}
extern "C" char* secure_getenv(const char* n) noexcept { return getenv(n); }
extern "C" pid_t getpid() noexcept { return t_cur && t_cur->rq ? (pid_t)(2 + surroundings(2) % 30000) : (pid_t)syscall(SYS_getpid); }
extern "C" pid_t getppid() noexcept { return t_cur && t_cur->rq ? (pid_t)(2 + surroundings(3) % 30000) : (pid_t)syscall(SYS_getppid); }
extern "C" pid_t gettid() noexcept { return t_cur && t_cur->rq ? (pid_t)(2 + surroundings(4) % 30000) : (pid_t)syscall(SYS_gettid); }
extern "C" int sched_getcpu() noexcept { return t_cur && t_cur->rq ? (int)(surroundings(5) % 8) : 0; }
extern "C" int rand() noexcept { return t_cur && t_cur->rq ? (int)(surroundings(6 + t_cur->rs->clock_reads) & 0x7fffffff) : 4; }
extern "C" long random() noexcept { return rand(); }
extern "C" void srand(unsigned) noexcept {}
extern "C" void srandom(unsigned) noexcept {}
#if defined(__x86_64__)
#include <ucontext.h>
static struct sigaction g_old_segv;
static void on_segv(int sig, siginfo_t* si, void* uc)
{
  auto* g = ((ucontext_t*)uc)->uc_mcontext.gregs;
  const uint8_t* ip = (const uint8_t*)g[REG_RIP];
  if (si->si_code == SI_KERNEL) {
    const bool a = ip[0] == 0x0f && ip[1] == 0x31, b = ip[0] == 0x0f && ip[1] == 0x01 && ip[2] == 0xf9;
    if (a || b) {
      const uint64_t v = t_cur && t_cur->rq ? (uint64_t)sim_now(t_cur) : 0;
      g[REG_RAX] = (greg_t)(v & 0xffffffff);
      g[REG_RDX] = (greg_t)(v >> 32);
      if (b) g[REG_RCX] = 0;
      g[REG_RIP] += a ? 2 : 3;
      return;
    }
  }
  sigaction(sig, &g_old_segv, nullptr); // not ours: let it happen again
}
void trap_tsc()
{
  struct sigaction s{};
  s.sa_sigaction = on_segv;
  s.sa_flags = SA_SIGINFO | SA_NODEFER;
  if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV) == 0) sigaction(SIGSEGV, &s, &g_old_segv);
}
#else
void trap_tsc() {}
#endif

// ---------------------------------------------------------------- cooperative locks
// Target threads run one at a time; a lock held by a parked thread is waited for
// by handing the baton on, never by blocking in the kernel.
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(uint64_t* g) noexcept
{
  auto* b = (uint8_t*)g;
  for (;;) {
    if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
    if (!b[1]) { b[1] = 1; return 1; }
    if (!t_cur) { usleep(50); continue; }
    yield_blocked();
  }
}
extern "C" void __cxa_guard_release(uint64_t* g) noexcept
{
  auto* b = (uint8_t*)g;
  b[1] = 0;
  __atomic_store_n(&b[0], (uint8_t)1, __ATOMIC_RELEASE);
}
extern "C" void __cxa_guard_abort(uint64_t* g) noexcept { ((uint8_t*)g)[1] = 0; }
}
template<class F> static F real_sym(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
  if (t_cur) {
    for (;;) {
      int r = pthread_mutex_trylock(m);
      if (r != EBUSY) return r;
      yield_blocked();
    }
  }
  static auto f = real_sym<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  return f(m);
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
  if (t_cur) {
    for (;;) {
      int r = pthread_rwlock_trywrlock(m);
      if (r != EBUSY) return r;
      yield_blocked();
    }
  }
  static auto f = real_sym<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  return f(m);
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
  if (t_cur) {
    for (;;) {
      int r = pthread_rwlock_tryrdlock(m);
      if (r != EBUSY && r != EAGAIN) return r;
      yield_blocked();
    }
  }
  static auto f = real_sym<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  return f(m);
}
extern "C" int pthread_once(pthread_once_t* o, void (*f)())
{
  auto* v = (int*)o; // 0 new, 1 running, 2 done
  for (;;) {
    int s = __atomic_load_n(v, __ATOMIC_ACQUIRE);
    if (s == 2) return 0;
    if (s == 0) {
      *v = 1;
      try { f(); } catch (...) { *v = 0; throw; }
      __atomic_store_n(v, 2, __ATOMIC_RELEASE);
      return 0;
    }
    if (!t_cur) { usleep(50); continue; }
    yield_blocked();
  }
}
