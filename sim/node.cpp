#include "node.hpp"
#include "seam.hpp"
#include "target.hpp"
#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <memory>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

constexpr size_t SHM_SZ = 160u << 20;
bool built_with_asan()
{
#ifdef SIM_ASAN
  return true;
#else
  return false;
#endif
}

// ------------------------------------------------------------------ node side
namespace {
constexpr size_t AR_SZ = 5u << 20, PG = 4096;
const Api* api(int64_t n) { return n == 512 ? api512 : api1024; }

struct Arena {
  uint8_t* base = nullptr; // data area
  bool ro = false;
  void init()
  {
    auto p = (uint8_t*)mmap(nullptr, AR_SZ + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(EXIT_INFRA);
    base = p + PG;
    mprotect(base, AR_SZ, PROT_READ | PROT_WRITE);
  }
};

// One buffer handed to the code under test.
struct Buf {
  uint8_t* p = nullptr;
  size_t n = 0;
  bool input = false;
  bytes before;                      // contents at call time
  uint8_t *lo = nullptr, *hi = nullptr; // canary ranges [lo,p) and [p+n,hi)
  uint64_t cseed = 0;
  std::unique_ptr<uint8_t[]> heap;
};
struct Ctx { // per task
  Arena ar[6];
  bool ready = false;
  std::vector<Buf> bufs;
  void init() { if (!ready) { for (auto& a : ar) a.init(); ready = true; } }
};
uint8_t canary(uint64_t seed, const uint8_t* q) { return (uint8_t)(mix(seed, (uint64_t)((uintptr_t)q & 63)) >> 3); }
uint8_t poison_byte(uint64_t seed, size_t i) { return seed ? (uint8_t)(mix(seed, i >> 3) >> (8 * (i & 7))) : 0xa5; }

Buf make_buf(Ctx& c, size_t idx, size_t n, bool input, const bytes* data, const Ambient& am, bool typed)
{
  Buf b;
  b.n = n;
  b.input = input;
  b.cseed = am.poison ^ (idx * 77 + 5);
#ifdef SIM_ASAN
  b.heap.reset(new uint8_t[n ? n : 1]);
  b.p = b.heap.get();
  (void)c; (void)typed;
  b.lo = b.p;
  b.hi = b.p + n;
#else
  Arena& a = c.ar[idx];
  if (n > AR_SZ - 4 * PG) _exit(EXIT_INFRA);
  if (a.ro) { mprotect(a.base, AR_SZ, PROT_READ | PROT_WRITE); a.ro = false; }
  if (am.place == 1) b.p = a.base + AR_SZ - n;
  else if (am.place == 2) b.p = a.base;
  else b.p = a.base + 1024 + (typed ? 16 * (mix(am.poison, idx) & 3) : (mix(am.poison, idx) & 63));
  b.lo = std::max(a.base, b.p - 64);
  b.hi = std::min(a.base + AR_SZ, b.p + n + 64);
  for (uint8_t* q = b.lo; q < b.p; q++) *q = canary(b.cseed, q);
  for (uint8_t* q = b.p + n; q < b.hi; q++) *q = canary(b.cseed, q);
#endif
  if (data) { if (n) memcpy(b.p, data->data(), n); }
  else for (size_t i = 0; i < n; i++) b.p[i] = poison_byte(am.poison ^ (0x1000 + idx), i);
  b.before.assign(b.p, b.p + n);
#ifndef SIM_ASAN
  if (input && am.place != 0) { mprotect(a.base, AR_SZ, PROT_READ); a.ro = true; }
#endif
  return b;
}

#if defined(__clang__)
__attribute__((no_sanitize("address", "undefined")))
#endif
__attribute__((noinline)) void poison_stack(uint64_t seed)
{
  constexpr size_t W = (1536u << 10) / 8;
  volatile uint64_t a[W];
  uint64_t v = seed * 0x9e3779b97f4a7c15ull;
  for (size_t i = 0; i < W; i++) { v += 0x9e3779b97f4a7c15ull; a[i] = v ^ (v >> 29); }
}

struct KeySlot { int64_t n = 0; uint8_t* mem = nullptr; size_t sz = 0; uint8_t *B = nullptr, *T = nullptr; };
struct HSlot { int64_t n = 0; bytes h; };
constexpr int SLOTS = 16;
KeySlot g_keys[SLOTS];
HSlot g_h[SLOTS];
void* g_rng[SLOTS];
Ctx g_ctx[8];

void key_alloc(KeySlot& k, int64_t n, uint64_t poison)
{
  const Api* A = api(n);
  if (k.mem) munmap(k.mem, k.sz);
  auto rnd = [](size_t x) { return (x + PG - 1) / PG * PG; };
  size_t b = rnd(A->b_bytes), t = rnd(A->t_bytes);
  k.n = n;
  k.sz = b + t + 3 * PG;
  k.mem = (uint8_t*)mmap(nullptr, k.sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (k.mem == MAP_FAILED) _exit(EXIT_INFRA);
  mprotect(k.mem + PG, b, PROT_READ | PROT_WRITE);
  mprotect(k.mem + 2 * PG + b, t, PROT_READ | PROT_WRITE);
  k.B = k.mem + PG + (b - A->b_bytes);
  k.T = k.mem + 2 * PG + b + (t - A->t_bytes);
  if (poison) {
    for (size_t i = 0; i < A->b_bytes; i++) k.B[i] = (uint8_t)(poison >> (8 * (i & 7)));
    for (size_t i = 0; i < A->t_bytes; i++) k.T[i] = (uint8_t)(poison >> (8 * (i & 7)));
  }
}
void key_seal(KeySlot& k, bool ro)
{
  const Api* A = api(k.n);
  auto rnd = [](size_t x) { return (x + PG - 1) / PG * PG; };
  size_t b = rnd(A->b_bytes), t = rnd(A->t_bytes);
  mprotect(k.mem + PG, b, ro ? PROT_READ : PROT_READ | PROT_WRITE);
  mprotect(k.mem + 2 * PG + b, t, ro ? PROT_READ : PROT_READ | PROT_WRITE);
}

void dispatch(const Req& q, Rsp& r, Ctx& c, Task* t)
{
  const Api* A = api(q.n);
  const size_t N = A->n;
  c.init();
  c.bufs.clear();
  c.bufs.reserve(8);
  auto in = [&](size_t i, bool typed = false) -> uint8_t* {
    c.bufs.push_back(make_buf(c, c.bufs.size(), q.in[i].size(), true, &q.in[i], q.amb, typed));
    return c.bufs.back().p;
  };
  std::vector<size_t> outs;
  auto out = [&](size_t n, bool typed = false) -> uint8_t* {
    outs.push_back(c.bufs.size());
    c.bufs.push_back(make_buf(c, c.bufs.size(), n, false, nullptr, q.amb, typed));
    return c.bufs.back().p;
  };
  auto rng = [&]() -> void* {
    if (!g_rng[q.rslot]) { fprintf(stderr, "no rng in slot\n"); _exit(EXIT_INFRA); }
    return g_rng[q.rslot];
  };
  // the message: an ordinary input or a mapping of its own
  struct Msg { uint8_t* p; size_t n; const HugeMsg* h; ~Msg() { if (h) h->unmap(p); } };
  auto msg = [&]() -> Msg {
    if (!q.huge.len) return { in(1), q.in[1].size(), nullptr };
    uint8_t* p = q.huge.map();
    if (!p) _exit(EXIT_INFRA);
    return { p, q.huge.len, &q.huge };
  };
  auto need = [&](size_t i, size_t n) { if (q.in[i].size() != n) { fprintf(stderr, "fn %lu: input %zu has %zu bytes\n", q.fn, i, q.in[i].size()); _exit(EXIT_INFRA); } };
  // poison below us, then run; edges count only inside target code
  auto go = [&](auto&& f) {
    if (q.amb.poison) poison_stack(q.amb.poison);
    task_begin_op(t, &q, &r);
    if (const uint64_t a = q.amb.poison) { // what earlier calculations of the caller may have left
      static const int errs[] = { 0, EINTR, ERANGE, EDOM, ENOMEM, EAGAIN };
      errno = errs[mix(a, 11) % 6];
      feclearexcept(FE_ALL_EXCEPT);
      if (mix(a, 12) & 1) feraiseexcept(FE_ALL_EXCEPT);
    } else errno = 0;
    t_cur = t;
    try {
      f();
      t_cur = nullptr;
      r.status = ST_OK;
    } catch (const std::exception& e) {
      t_cur = nullptr;
      r.status = ST_EXC;
      r.what = e.what();
    } catch (...) {
      t_cur = nullptr;
      r.status = ST_EXC;
      r.what = "unknown exception";
    }
    task_end_op(t);
  };
  switch (q.fn) {
    case FN_KEYGEN: {
      auto pk = out(A->pklen), sk = out(A->sklen);
      if (!A->keygen) _exit(EXIT_INFRA);
      go([&] { A->keygen(pk, sk); });
      break;
    }
    case FN_KEYGEN_MAT: {
      KeySlot& k = g_keys[q.slot];
      key_alloc(k, q.n, q.amb.poison);
      auto h = out(A->h_bytes, true);
      const double sigma = q.n == 512 ? 165.736617183 : 168.388571447;
      auto rg = rng();
      go([&] { A->keygen_mat(k.B, k.T, h, sigma, rg); });
      key_seal(k, true);
      break;
    }
    case FN_NTRU_GEN: {
      auto f = out(4 * N, true), g = out(4 * N, true), F = out(4 * N, true), G = out(4 * N, true);
      auto rg = rng();
      go([&] { A->ntru_gen((int32_t*)f, (int32_t*)g, (int32_t*)F, (int32_t*)G, rg); });
      break;
    }
    case FN_SIGN_SK: {
      need(0, A->sklen);
      auto sk = in(0);
      auto m = msg();
      auto s = out(A->siglen);
      go([&] { r.ret = A->sign_sk(sk, m.p, m.n, s); });
      break;
    }
    case FN_LOAD: {
      need(0, A->sklen);
      KeySlot& k = g_keys[q.slot];
      key_alloc(k, q.n, q.amb.poison);
      auto sk = in(0), f = out(4 * N, true), g = out(4 * N, true), F = out(4 * N, true), G = out(4 * N, true);
      go([&] {
        r.ret = A->dec_sk(sk, (int32_t*)f, (int32_t*)g, (int32_t*)F);
        if (r.ret) {
          A->recompute_G((int32_t*)f, (int32_t*)g, (int32_t*)F, (int32_t*)G);
          A->matrix((int32_t*)f, (int32_t*)g, (int32_t*)F, (int32_t*)G, k.B);
          A->tree(k.B, k.T);
        }
      });
      if (r.ret) {
        Fnv h;
        h.add(k.B, A->b_bytes);
        h.add(k.T, A->t_bytes);
        r.ret2 = (int64_t)h.h;
      }
      key_seal(k, true);
      break;
    }
    case FN_SIGN_BT: {
      KeySlot& k = g_keys[q.slot];
      if (k.n != q.n) _exit(EXIT_INFRA);
      auto m = msg();
      auto s = out(A->siglen);
      auto rg = rng();
      go([&] { A->sign_bt(k.B, k.T, m.p, m.n, s, rg); r.ret = 1; });
      break;
    }
    case FN_VERIFY: {
      need(0, A->pklen);
      need(2, A->siglen);
      auto pk = in(0);
      auto m = msg();
      auto s = in(2);
      go([&] { r.ret = A->verify(pk, m.p, m.n, s); });
      break;
    }
    case FN_LOAD_PK: {
      need(0, A->pklen);
      HSlot& k = g_h[q.slot];
      auto pk = in(0), h = out(A->h_bytes, true);
      go([&] { r.ret = A->dec_pk(pk, h); });
      k.n = q.n;
      k.h.assign(h, h + A->h_bytes);
      break;
    }
    case FN_VERIFY_H: {
      need(2, A->siglen);
      bytes hb(A->h_bytes);
      if (q.slot >= 0) { if (g_h[q.slot].n != q.n) _exit(EXIT_INFRA); hb = g_h[q.slot].h; }
      else { need(0, 2 * N); A->h_set(hb.data(), (const uint16_t*)q.in[0].data()); }
      c.bufs.push_back(make_buf(c, c.bufs.size(), hb.size(), true, &hb, q.amb, true));
      auto h = c.bufs.back().p;
      auto m = msg();
      auto s = in(2);
      go([&] { r.ret = A->verify_h(h, m.p, m.n, s); });
      break;
    }
    case FN_DEC_PK: {
      need(0, A->pklen);
      auto pk = in(0), h = out(A->h_bytes, true);
      go([&] { r.ret = A->dec_pk(pk, h); });
      break;
    }
    case FN_ENC_PK: {
      need(0, 2 * N);
      bytes hb(A->h_bytes);
      A->h_set(hb.data(), (const uint16_t*)q.in[0].data());
      c.bufs.push_back(make_buf(c, c.bufs.size(), hb.size(), true, &hb, q.amb, true));
      auto h = c.bufs.back().p;
      auto pk = out(A->pklen);
      go([&] { A->enc_pk(h, pk); });
      break;
    }
    case FN_DEC_SK: {
      need(0, A->sklen);
      auto sk = in(0), f = out(4 * N, true), g = out(4 * N, true), F = out(4 * N, true);
      go([&] { r.ret = A->dec_sk(sk, (int32_t*)f, (int32_t*)g, (int32_t*)F); });
      break;
    }
    case FN_ENC_SK: {
      for (size_t i = 0; i < 3; i++) need(i, 4 * N);
      auto f = in(0, true), g = in(1, true), F = in(2, true), sk = out(A->sklen);
      go([&] { A->enc_sk((int32_t*)f, (int32_t*)g, (int32_t*)F, sk); });
      break;
    }
    case FN_DEC_SIG: {
      need(0, A->siglen);
      auto s = in(0), p = out(4 * N, true);
      go([&] { r.ret = A->dec_sig(s, (int32_t*)p); });
      break;
    }
    case FN_ENC_SIG: {
      need(0, 4 * N);
      auto p = in(0, true), s = out(A->siglen);
      go([&] { r.ret = A->enc_sig((int32_t*)p, s); });
      break;
    }
    case FN_RNG_NEW: {
      void*& s = g_rng[q.rslot];
      if (s) { t_rng_del(s); s = nullptr; }
      // memory of its own, with leftovers in it
      static uint8_t* mem[SLOTS];
      uint8_t*& m = mem[q.rslot];
      const size_t room = (t_rng_size() + 2 * PG) & ~(PG - 1);
      if (!m) m = (uint8_t*)mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      for (size_t i = 0; i < room; i++) m[i] = poison_byte(q.amb.poison ^ 0x2000, i);
      uint8_t* at = m + (q.amb.poison ? 64 * (mix(q.amb.poison, 0x57) & 15) : 0);
      go([&] { s = t_rng_new(at); });
      break;
    }
    case FN_RNG_READ: {
      // b reads of a bytes each (0: one)
      const size_t k = q.b > 0 ? (size_t)q.b : 1, l = (size_t)q.a;
      auto p = out(k * l);
      auto rg = rng();
      go([&] { for (size_t i = 0; i < k; i++) t_rng_read(rg, p + i * l, l); });
      break;
    }
    case FN_SZ: {
      auto p = out((size_t)q.a);
      auto rg = rng();
      go([&] {
        r.ret = t_samplerz(q.d[0], q.d[1], q.d[2], rg);
        if (q.a) t_rng_read(rg, p, (size_t)q.a);
      });
      break;
    }
    case FN_SZ_ARR: {
      auto p = in(0);
      go([&] { t_samplerz_arr(q.d[0], q.d[1], q.d[2], p, q.in[0].size(), &r.ret, &r.ret2); });
      break;
    }
    case FN_RECOMP_G: {
      for (size_t i = 0; i < 3; i++) need(i, 4 * N);
      auto f = in(0, true), g = in(1, true), F = in(2, true), G = out(4 * N, true);
      go([&] { A->recompute_G((int32_t*)f, (int32_t*)g, (int32_t*)F, (int32_t*)G); });
      break;
    }
    case FN_LOAD_RAW: {
      for (size_t i = 0; i < 4; i++) need(i, 4 * N);
      KeySlot& k = g_keys[q.slot];
      key_alloc(k, q.n, q.amb.poison);
      auto f = in(0, true), g = in(1, true), F = in(2, true), G = in(3, true);
      go([&] {
        A->matrix((int32_t*)f, (int32_t*)g, (int32_t*)F, (int32_t*)G, k.B);
        A->tree(k.B, k.T);
        r.ret = 1;
      });
      Fnv h;
      h.add(k.B, A->b_bytes);
      h.add(k.T, A->t_bytes);
      r.ret2 = (int64_t)h.h;
      key_seal(k, true);
      break;
    }
    default: _exit(EXIT_INFRA);
  }
  for (auto& b : c.bufs) {
    const bool same = b.n == 0 || memcmp(b.p, b.before.data(), b.n) == 0;
    if (b.input) { if (!same) r.input_bad = 1; }
    else if (!same) r.out_touched = 1;
    for (uint8_t* x = b.lo; x < b.p; x++) if (*x != canary(b.cseed, x)) r.canary_bad = 1;
    for (uint8_t* x = b.p + b.n; x < b.hi; x++) if (*x != canary(b.cseed, x)) r.canary_bad = 1;
  }
  for (size_t i = 0; i < outs.size() && i < 5; i++) {
    auto& b = c.bufs[outs[i]];
    r.out[i].assign(b.p, b.p + b.n);
  }
  if ((q.fn == FN_LOAD_PK || q.fn == FN_DEC_PK || q.fn == FN_KEYGEN_MAT) && !outs.empty()) { // typed h -> u16 list
    bytes v(2 * N);
    A->h_get(r.out[0].data(), (uint16_t*)v.data());
    r.out[0] = v;
  }
}
void runner(const Req& q, Rsp& r, Task* t) { dispatch(q, r, g_ctx[1 + t->id], t); }

[[noreturn]] void node_main(int fd, uint8_t* shm)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl{ 0, 0 };
  setrlimit(RLIMIT_CORE, &rl);
#ifndef SIM_ASAN
  rl = { 6ull << 30, 6ull << 30 };
  setrlimit(RLIMIT_AS, &rl);
#endif
  shared_heap_init();
  Task t0;
  trap_tsc();
  for (;;) {
    char cmd;
    if (read(fd, &cmd, 1) != 1) _exit(0);
    if (cmd == 'q') _exit(0);
    uint64_t n;
    memcpy(&n, shm, 8);
    bytes inb(shm + 8, shm + 8 + n);
    Rd rd{ inb.data(), inb.size() };
    Wr w;
    alarm(300); // wall-clock backstop; counts as a machinery error, never as a finding
    if (cmd == 'r' || cmd == 'c') {
      Req q;
      q.get(rd);
      Rsp r;
      if (q.track) live_on();
#ifndef SIM_ASAN
      mallopt(M_PERTURB, q.amb.poison ? (int)((q.amb.poison & 0xfe) | 1) : 0);
#endif
      if (q.fn == FN_NONE) { r.status = ST_OK; }
      else {
        if (cmd == 'c') { count_guards(true); t0.counting = true; }
        dispatch(q, r, g_ctx[0], &t0);
        if (cmd == 'c') { count_guards(false); t0.counting = false; }
      }
      if (q.track) live_report(r);
      r.put(w);
      auto gs = cmd == 'c' ? take_guards() : std::vector<std::pair<uint32_t, uint32_t>>{};
      w.u64(gs.size());
      for (auto& g : gs) { w.u64(g.first); w.u64(g.second); }
    } else {
      ParReq p;
      p.get(rd);
      ParRsp o;
      par_run(p, o, runner);
      o.put(w);
    }
    alarm(0);
    if (w.b.size() + 8 > SHM_SZ) _exit(EXIT_INFRA);
    n = w.b.size();
    memcpy(shm, &n, 8);
    memcpy(shm + 8, w.b.data(), n);
    if (write(fd, "d", 1) != 1) _exit(0);
  }
}
}

// ------------------------------------------------------------------ coordinator side
void node_globals_init()
{
  signal(SIGPIPE, SIG_IGN);
  g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  extern uint32_t g_nguards;
  g_shared->nguards = g_nguards;
}
static bool g_err_capture = true;
static int g_errfd = -1;
static std::vector<uint8_t*> g_shm_pool;
void Node::start()
{
  stop();
  if (!shm && !g_shm_pool.empty()) { shm = g_shm_pool.back(); g_shm_pool.pop_back(); }
  if (!shm) {
    shm = (uint8_t*)mmap(nullptr, SHM_SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); exit(2); }
  }
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0) { perror("socketpair"); exit(2); }
  if (g_errfd < 0 && g_err_capture) g_errfd = memfd_create("stderr", 0);
  fflush(nullptr);
  pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    for (int i = 3; i < 256; i++) if (i != sv[1] && i != g_errfd) close(i);
    if (g_errfd >= 0) { if (ftruncate(g_errfd, 0) == 0) lseek(g_errfd, 0, SEEK_SET); dup2(g_errfd, 2); }
    node_main(sv[1], shm);
  }
  close(sv[1]);
  fcntl(sv[0], F_SETFD, FD_CLOEXEC);
  fd = sv[0];
  incarnations++;
}
Node::~Node()
{
  stop();
  if (shm) g_shm_pool.push_back(shm);
}
void Node::stop()
{
  slots.clear();
  rngs.clear();
  if (pid > 0) {
    kill(pid, SIGKILL);
    int st;
    waitpid(pid, &st, 0);
  }
  if (fd >= 0) close(fd);
  pid = -1;
  fd = -1;
}
bool Node::xfer(const bytes& in, bytes& out, Rsp& dead)
{
  char cmd = (char)in[0];
  uint64_t n = in.size() - 1;
  if (n + 8 > SHM_SZ) { fprintf(stderr, "request too large\n"); exit(2); }
  memcpy(shm, &n, 8);
  memcpy(shm + 8, in.data() + 1, n);
  char c = 0;
  ssize_t k = write(fd, &cmd, 1);
  if (k == 1) k = read(fd, &c, 1);
  if (k == 1) {
    memcpy(&n, shm, 8);
    out.assign(shm + 8, shm + 8 + n);
    return true;
  }
  int st = 0;
  waitpid(pid, &st, 0);
  close(fd);
  fd = -1;
  pid = -1;
  slots.clear();
  rngs.clear();
  dead = Rsp{};
  std::string err;
  if (g_errfd >= 0) {
    char b[4096];
    ssize_t m = pread(g_errfd, b, sizeof b - 1, 0);
    if (m > 0) {
      err.assign(b, (size_t)m);
      // keep only what is stable between runs: the kind of report and where
      std::string keep;
      size_t i = 0;
      int lines = 0;
      while (i < err.size() && lines < 40) {
        size_t e = err.find('\n', i);
        if (e == std::string::npos) e = err.size();
        std::string l = err.substr(i, e - i);
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what()") != std::string::npos) {
          size_t h = l.find(" on address");
          if (h != std::string::npos) l = l.substr(0, h);
          h = l.find("AddressSanitizer");
          if (h != std::string::npos) l = l.substr(h);
          keep += (keep.empty() ? "" : "; ") + l;
        }
        i = e + 1;
        lines++;
      }
      err = keep.empty() ? err.substr(0, 0) : keep;
    }
  }
  if (WIFEXITED(st)) {
    int x = WEXITSTATUS(st);
    dead.status = x == EXIT_HANG ? ST_HANG : x == EXIT_CRASH ? ST_CRASH_INJ : x == EXIT_ASAN ? ST_ASAN : x == EXIT_INFRA ? ST_INFRA : ST_EXIT;
    dead.ret = x;
    if (x == EXIT_INFRA) { char b[512]; ssize_t m = g_errfd >= 0 ? pread(g_errfd, b, sizeof b, 0) : 0; fprintf(stderr, "node: infrastructure error %.*s\n", (int)std::max<ssize_t>(m, 0), b); exit(2); }
  } else {
    dead.status = ST_SIGNAL;
    dead.ret = WTERMSIG(st);
    if (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL) { fprintf(stderr, "node: killed by signal %d (machinery)\n", WTERMSIG(st)); exit(2); }
  }
  dead.what = err;
  return false;
}
Rsp Node::call(const Req& r)
{
  if (!alive()) start();
  Wr w;
  w.b.push_back(count ? 'c' : 'r');
  r.put(w);
  bytes o;
  Rsp rs;
  if (!xfer(w.b, o, rs)) return rs;
  Rd rd{ o.data(), o.size() };
  rs.get(rd);
  last_guards.clear();
  uint64_t k = rd.u64();
  for (uint64_t i = 0; i < k && !rd.bad; i++) { uint64_t g = rd.u64(), c = rd.u64(); last_guards.push_back({ (uint32_t)g, (uint32_t)c }); }
  if (rd.bad) { fprintf(stderr, "bad reply\n"); exit(2); }
  return rs;
}
ParRsp Node::par(const ParReq& r, Rsp& fail)
{
  if (!alive()) start();
  Wr w;
  w.b.push_back('p');
  r.put(w);
  bytes o;
  ParRsp pr;
  fail = Rsp{};
  fail.status = ST_OK;
  if (!xfer(w.b, o, fail)) return pr;
  Rd rd{ o.data(), o.size() };
  pr.get(rd);
  return pr;
}
