// Interface between the controlled scheduler (schedrt.cpp) and the harnesses.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
struct VpExecution {
  // to the runtime
  int bound;               // preemptions allowed
  int delay;               // 1: choices made when a thread waits or ends count too
  int hw;                  // number of processors reported, -1: the real one
  int fail_create;         // the n-th thread started from now on is refused (-1: none)
  int fail_all;            // the following ones are refused too
  uint32_t n_prefix;       // choices to replay
  uint8_t prefix[2048];
  uint32_t n_shared;       // addresses of atomics used by several threads
  uint64_t shared[1024];
  // from the runtime
  uint32_t n_choices;
  uint8_t chosen[2048], options[2048];
  uint32_t switches, accesses, syncs;
  uint32_t created, finished, refused, live_at_end;
  uint32_t found_shared;   // set when an address was added to shared
  uint32_t truncated;      // more choices than can be recorded
  int done;                // 1: the scenario returned
  char problem[2048];      // race, deadlock, use after free
  // from the scenario
  uint64_t outcome;
  char failure[2048];
};
void vp_begin(VpExecution*);
void vp_end();
uint32_t vp_created();   // threads started since vp_begin
uint32_t vp_alive();     // of them, those that have not ended
}
