#include "common.hpp"
#include <sys/mman.h>
uint8_t* HugeMsg::map() const
{
  auto p = (uint8_t*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return nullptr;
  auto fill = [&](uint64_t at, uint64_t n) { for (uint64_t i = at; i < at + n && i < len; i++) p[i] = (uint8_t)(mix(seed, i >> 3) >> (8 * (i & 7))); };
  fill(0, 4096);
  fill(len < 300 ? 0 : len - 300, 300);
  for (uint64_t at = 1 << 26; at < len; at += 1 << 26) fill(at, 256);
  if (alter_at < len) p[alter_at] ^= (uint8_t)alter_by;
  mprotect(p, len, PROT_READ);
  return p;
}
void HugeMsg::unmap(uint8_t* p) const { munmap(p, len); }
void Req::put(Wr& w) const
{
  w.u64(fn); w.i64(n); w.i64(slot); w.i64(rslot); w.i64(a); w.i64(b); w.u64(huge.len); w.u64(huge.seed); w.u64(huge.alter_at); w.u64(huge.alter_by);
  for (double v : d) w.f64(v);
  for (auto& b : in) w.buf(b);
  w.u64(ent.seed); w.u64(ent.mode); w.u64(ent.stuck); w.i64(ent.fail_open); w.i64(ent.fail_word); w.i64(ent.fail_count);
  w.u64(ent.fail_kind); w.i64(ent.flip_word); w.u64(ent.flip_mask);
  w.buf(st.prefix); w.u64(st.pat_len); w.buf(st.pat); w.u64(st.tail); w.u64(st.tail_seed); w.u64(st.record); w.u64(st.stop_at);
  w.u64(amb.poison); w.u64(amb.place); w.i64(amb.clock_skew); w.i64(amb.clock_rate);
  w.u64(budget); w.u64(crash_edge); w.i64(alloc_fail); w.i64(alloc_count); w.u64(alloc_own); w.u64(track);
}
void Req::get(Rd& r)
{
  fn = r.u64(); n = r.i64(); slot = r.i64(); rslot = r.i64(); a = r.i64(); b = r.i64(); huge.len = r.u64(); huge.seed = r.u64(); huge.alter_at = r.u64(); huge.alter_by = r.u64();
  for (double& v : d) v = r.f64();
  for (auto& b : in) b = r.buf();
  ent.seed = r.u64(); ent.mode = r.u64(); ent.stuck = r.u64(); ent.fail_open = r.i64(); ent.fail_word = r.i64(); ent.fail_count = r.i64();
  ent.fail_kind = r.u64(); ent.flip_word = r.i64(); ent.flip_mask = r.u64();
  st.prefix = r.buf(); st.pat_len = r.u64(); st.pat = r.buf(); st.tail = r.u64(); st.tail_seed = r.u64(); st.record = r.u64(); st.stop_at = r.u64();
  amb.poison = r.u64(); amb.place = r.u64(); amb.clock_skew = r.i64(); amb.clock_rate = r.i64();
  budget = r.u64(); crash_edge = r.u64(); alloc_fail = r.i64(); alloc_count = r.i64(); alloc_own = r.u64(); track = r.u64();
}
void Rsp::put(Wr& w) const
{
  w.u64(status); w.i64(ret); w.i64(ret2);
  for (auto& b : out) w.buf(b);
  w.str(what);
  for (uint64_t v : { edges, words, opens, clock_reads, seeds, stream_len, out_touched, canary_bad, input_bad, fail_fired, flip_fired, stop_fired, live_bytes, live_blocks, live_devices, allocs, allocs_own, alloc_fired }) w.u64(v);
  w.buf(stream);
  w.buf(seed);
}
void Rsp::get(Rd& r)
{
  status = r.u64(); ret = r.i64(); ret2 = r.i64();
  for (auto& b : out) b = r.buf();
  what = r.str();
  for (uint64_t* v : { &edges, &words, &opens, &clock_reads, &seeds, &stream_len, &out_touched, &canary_bad, &input_bad, &fail_fired, &flip_fired, &stop_fired, &live_bytes, &live_blocks, &live_devices, &allocs, &allocs_own, &alloc_fired }) *v = r.u64();
  stream = r.buf();
  seed = r.buf();
}
uint64_t Rsp::digest() const
{
  Wr w;
  w.u64(status); w.i64(ret); w.i64(ret2);
  for (auto& b : out) w.buf(b);
  w.str(what);
  for (uint64_t v : { words, opens, seeds, stream_len, out_touched, canary_bad, input_bad }) w.u64(v);
  w.buf(stream);
  return hash_bytes(w.b);
}
static void put_segs(Wr& w, const std::vector<Seg>& s)
{
  w.u64(s.size());
  for (auto& x : s) { w.u64(x.t); w.u64(x.edges); }
}
static void get_segs(Rd& r, std::vector<Seg>& s)
{
  size_t k = r.u64();
  s.clear();
  for (size_t i = 0; i < k && !r.bad; i++) { Seg x; x.t = r.u64(); x.edges = r.u64(); s.push_back(x); }
}
void ParReq::put(Wr& w) const
{
  w.u64(th.size());
  for (auto& t : th) { w.u64(t.size()); for (auto& q : t) q.put(w); }
  put_segs(w, segs);
  w.u64(mode); w.u64(seed); w.u64(mean);
  put_segs(w, targets);
}
void ParReq::get(Rd& r)
{
  th.resize(r.u64());
  for (auto& t : th) { t.resize(r.u64()); for (auto& q : t) q.get(r); }
  get_segs(r, segs);
  mode = r.u64(); seed = r.u64(); mean = r.u64();
  get_segs(r, targets);
}
void ParRsp::put(Wr& w) const
{
  w.u64(th.size());
  for (auto& t : th) { w.u64(t.size()); for (auto& q : t) q.put(w); }
  put_segs(w, segs);
  w.u64(switches); w.u64(site_hash); w.u64(blocked);
}
void ParRsp::get(Rd& r)
{
  th.resize(r.u64());
  for (auto& t : th) { t.resize(r.u64()); for (auto& q : t) q.get(r); }
  get_segs(r, segs);
  switches = r.u64(); site_hash = r.u64(); blocked = r.u64();
}
