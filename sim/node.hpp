#pragma once
#include "common.hpp"
#include <sys/types.h>
// A node is a forked process that hosts the code under test.  The coordinator
// never runs target code; it drives nodes one request at a time.
struct Node {
  Node() = default;
  Node(const Node&) = delete;
  Node& operator=(const Node&) = delete;
  ~Node();
  pid_t pid = -1;
  int fd = -1;
  uint8_t* shm = nullptr;
  bool alive() const { return pid > 0; }
  void start();
  void stop();
  Rsp call(const Req& r);
  ParRsp par(const ParReq& r, Rsp& fail);  // fail.status != OK if the node died
  std::vector<std::pair<uint32_t, uint32_t>> last_guards;
  bool count = false;
  uint64_t incarnations = 0;
  std::map<int64_t, std::string> slots; // what the coordinator believes is loaded; volatile
  std::map<int64_t, bool> rngs;
private:
  bool xfer(const bytes& in, bytes& out, Rsp& dead);
};
bool built_with_asan();
void node_globals_init();
