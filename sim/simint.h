// internals shared by the simulator core files
#pragma once
#include "sim.h"
#define MAXTRACE 200000
#define MAXLOG (1 << 20)
#define MAXCNT 96
#define COVSZ 65536
struct Shm {
  uint64_t prng;
  int replay;                       // choices come from in[]
  uint32_t nin, npos;
  uint32_t in[MAXTRACE];
  uint32_t ntrace;
  struct { uint32_t v, n; } trace[MAXTRACE];
  uint64_t evhash;
  uint64_t steps, step_limit;
  uint64_t vtime;
  uint64_t switches;                // thread switches
  uint64_t schedhash;
  int nontrivial;
  struct { char name[44]; uint64_t n; } cnt[MAXCNT]; // "f:" faults, "p:" probes
  char cls[160];
  char msg[1600];
  int harness_err;
  uint32_t loglen;
  char logbuf[MAXLOG];
  uint8_t cov[COVSZ];
};
extern Shm *shm;
extern bool sched_on;
namespace sim { void preempt_point (); void count (const char *pfx, const char *name); void threads_abort_reset (); }
