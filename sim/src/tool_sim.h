// State shared by the stand-ins of hmacsum's environment and its simulation.
#pragma once
#include "core.h"
#include <csetjmp>
#include <string>
namespace sim {
struct World {
  // input
  u64 size = 0, actual = 0, pos = 0;
  std::vector<u8> pat;
  int rmode = 0;
  u64 rcap = 0;
  Rng rrng;
  bool dead = false;         // reads fail for good
  u64 reads = 0, noprogress = 0, delivered = 0;
  std::string name = "input"; // the source
  u64 opens = 0, reqmax = ~0ull; // largest read the command line allows
  // output
  std::string attempted, accepted, buffered[3];
  int bufmode[3] = {0, 0, 0};
  u64 outcap = ~0ull;
  bool outfail = false, errflag = false;
  bool stdout_closed = false;
  // process
  jmp_buf top;
  int ended = 0, status = 0; // ended: 1 returned or exit, 2 killed by a signal
  void (*handler)(int) = nullptr;
  bool ignored = false;
  bool stdin_open = true;
  // interrupts
  u64 handled = 0, handled_in_input = 0, reads_after = 0;
  bool opened = false;
};
extern World w;
void content(u64 off, u8 *p, size_t n);
void flush_at_exit();
} // namespace sim
