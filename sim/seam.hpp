#pragma once
#include "common.hpp"
#include <atomic>
#include <setjmp.h>

constexpr int EXIT_HANG = 77, EXIT_CRASH = 78, EXIT_ASAN = 79, EXIT_INFRA = 80;
constexpr size_t MAX_GUARDS = 1 << 18;
constexpr int64_t SIM_EPOCH_NS = 1700000000ll * 1000000000ll;

// shared by all processes of one simulator run
struct Shared {
  uint32_t nguards;
  std::atomic<uint32_t> hits[MAX_GUARDS]; // saturating coverage
};
extern Shared* g_shared;

struct Task {
  int id = 0;
  uint64_t edges = 0;      // total
  uint64_t op_base = 0;    // edges when the current operation began
  uint64_t limit = ~0ull;  // next edge count that needs attention
  uint64_t quota_end = ~0ull;
  const Req* rq = nullptr;
  Rsp* rs = nullptr;
  uint64_t stream_pos = 0;
  uint8_t* seen = nullptr; // MAX_GUARDS bytes or null: guard hit counts of this task (targeted preemption)
  uint32_t* cnt = nullptr;
  bool counting = false;
  std::vector<Seg> targets;
  bool done = false;
  size_t seg = ~(size_t)0; // index of the scheduling decision it runs under
  uint64_t seg_from = 0;
  std::atomic<uint32_t> go{ 0 };
};
extern thread_local Task* t_cur;
void task_begin_op(Task* t, const Req* rq, Rsp* rs);
void task_end_op(Task* t);
// concurrent block
void par_run(const ParReq& pr, ParRsp& out, void (*runner)(const Req&, Rsp&, Task*));
extern uint64_t g_default_budget;
// per-operation guard counts of the last sequential operation (for targeted preemption)
void shared_heap_init();
void trap_tsc();             // from now on, rdtsc in this process tells simulated time
void live_on();              // from now on, remember what library code holds
void live_report(Rsp& r);
void count_guards(bool on);
const std::vector<std::pair<uint32_t, uint32_t>> take_guards();
