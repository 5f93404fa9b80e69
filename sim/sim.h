// Deterministic simulator core: choices, virtual disk/network/clock/allocator/threads.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
extern "C" {
#include "libmseed.h"
extern int libmseed_sim_maxreclen;
int msi_main (int argc, char **argv);
}
typedef std::string Str;

namespace sim {
// ---- choices -------------------------------------------------------------
uint32_t choose (uint32_t n);                    // [0,n), 0 = simplest
inline int64_t range (int64_t lo, int64_t hi) { return lo + choose ((uint32_t)(hi - lo + 1)); }
bool chance (uint32_t num, uint32_t den);        // false is simplest
template <class T> const T &pick (const std::vector<T> &v) { return v[choose (v.size ())]; }
uint32_t logsize (uint32_t max);                 // log-distributed size in [0,max]
struct Rng { uint64_t s; explicit Rng (uint64_t x = 0) : s (x) {} uint64_t next (); uint32_t below (uint32_t n) { return n ? next () % n : 0; } };
Rng bulk ();                                     // generator seeded by one choice

// ---- event log, counters, verdict ---------------------------------------
void log (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void hash (const void *p, size_t n);
inline void hashs (const Str &s) { hash (s.data (), s.size ()); }
void fault (const char *kind);
void probe (const char *name);
[[noreturn]] void violate (const char *cls, const char *fmt, ...) __attribute__ ((format (printf, 2, 3)));
[[noreturn]] void harness_error (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
Str fmt (const char *f, ...) __attribute__ ((format (printf, 1, 2)));
uint64_t steps ();
void step_limit (uint64_t more);                 // allow `more` further simulated steps, then "hang"
void nontrivial ();                              // mark the run as non-trivial

// run fn in a child process sharing choices and counters; returns what it returned
Str isolated (const std::function<Str ()> &fn);

// ---- disk -----------------------------------------------------------------
struct ReadPlan {
  int style = 0;            // 0 full, 1 fixed size, 2 random sizes
  uint32_t unit = 0;
  uint64_t seed = 0;
  int64_t fail_at = -1;     // fail reads once position reaches this byte
  int err = 5;              // EIO
  bool transient = false;   // fails once only
  bool cut = false;         // instead of failing, behave as end of file (file shrank)
};
struct WritePlan {
  int64_t capacity = -1;    // bytes this file may ever hold (ENOSPC beyond)
  int64_t fail_at = -1;     // EIO once this many bytes were accepted
  int err = 28;
  bool transient = false;   // only one failing call
  bool close_fails = false;
  bool flush_only_at_close = false; // very large stdio buffer
  int64_t crash_at = -1;    // process crash when this many bytes stored
};
struct File {
  Str data;
  uint64_t hole = 0;        // the data begin here, after a hole of zeros (reading only)
  ReadPlan rp;
  WritePlan wp;
  bool is_pipe = false;
  int open_errno = 0;
  bool seek_fails = false;
  uint64_t accepted = 0;    // bytes stored by the disk
  bool write_failed = false, close_failed = false, read_failed = false;
  int opens = 0, closes = 0;
};
File &file (const Str &name);           // create or get
bool has_file (const Str &name);
void rm_file (const Str &name);
int make_fd (const Str &name);          // a simulated descriptor open on the file
void set_stdin (const Str &name);
void std_init ();                       // (re)create simulated stdin/stdout/stderr
Str out_text ();                        // what reached simulated stdout
Str err_text ();
int open_streams ();                    // streams opened by the code and not closed
int open_fds ();
struct CrashNow {};                     // simulated process crash (thrown through longjmp)
// run fn; true if the simulated process crashed in it
bool run_until_crash (const std::function<void ()> &fn);
ReadPlan random_read_plan ();           // chunking only, no faults

// ---- program ---------------------------------------------------------------
struct MsiResult { int status; Str out, err; bool exited; };
MsiResult run_msi (const std::vector<Str> &args);
void set_env (const Str &k, const Str &v);
void clear_env ();

// ---- network ---------------------------------------------------------------
struct Server {
  Str body;
  int64_t hole = 0;          // the body begins after this many zeros
  bool ranges = true;        // honours Range
  int status = 0;            // force this status (0 = natural)
  int redirects = 0;
  bool lower_case = false, http2 = false;
  int64_t shift = 0;         // answers a range shifted by this much (declared in Content-Range)
  bool trailer_range = false;// sends a Content-Range trailer after the body
  Str range_text;            // sent instead of the Content-Range
  bool long_header = false;  // odd but legal headers
  int64_t reset_at = -1;     // connection dies after this many body bytes
  bool refuse = false;       // connect fails
  uint32_t chunk_max = 16384;
  int chunk_style = 0;       // 0 max size, 1 fixed, 2 random
  uint32_t unit = 0;
  uint64_t seed = 0;
  int per_perform = 0;       // chunks per perform: 0 = unlimited
  uint32_t delay_ms = 0;     // between chunks
  bool unpause_immediate = false;
  bool nofd = false;         // fdset returns maxfd -1
  bool timer = false;        // the transfer proceeds when a timer expires, no descriptor becomes ready
  uint32_t eintr = 0;        // 1/n of selects are interrupted
  int requests = 0; Str last_range; // request log
  bool saw_fault = false;
};
Server &server (const Str &url);
// every request as the network saw it, in order
struct NetReq { Str url, range, ua, userpwd; long auth = 0; bool verify_peer = true, verify_host = true; std::vector<Str> headers; int hop = 0; };
std::vector<NetReq> &net_requests ();
void net_fail_at (int64_t k, int64_t count = 1); // libcurl runs out of memory at its k-th call that needs some (0-based), count times
void net_fail_off ();
uint64_t net_mem_calls (), net_mem_failed (); // such calls since net_fail_at, failures injected
void random_schedule (Server &s);       // benign delivery schedule
int open_handles ();                    // easy + multi handles alive
int slists ();

// ---- clock -----------------------------------------------------------------
extern int64_t clock_base;              // host epoch seconds at start of run
extern int tz_offset;                   // seconds east
void clock_jump_plan (uint64_t seed, int64_t maxjump); // every time() call may jump
uint64_t vtime_ns ();

// ---- allocator -------------------------------------------------------------
void alloc_reset ();
void alloc_fail_at (int64_t k, int64_t count = 1);    // fail k-th next allocation (0-based), count times
void alloc_fail_off ();
void alloc_fail_none_log ();
uint64_t alloc_calls ();                // allocations since alloc_reset
uint64_t alloc_failed ();               // failures injected
size_t live_blocks ();                  // live blocks allocated by repo code
size_t live_bytes ();
Str live_desc ();
void alloc_fill (int byte);
void alloc_move (bool always);
size_t alloc_size (const void *p);        // bytes obtained at p, 0 if nothing was
void install_allocator ();              // set libmseed_memory to a distinct tagged allocator
void *user_alloc (size_t n);            // what a caller would get from libmseed_memory.malloc
void user_free (void *p);

// ---- threads ---------------------------------------------------------------
// Runs the bodies as real threads, exactly one at a time; switches at instrumented edges.
void threads (const std::vector<std::function<void ()>> &bodies, int policy);
bool in_threads ();

// ---- guarded memory --------------------------------------------------------
// a read-only copy of bytes; end of the copy touches an unmapped page (right = true)
const char *ro_copy (const Str &bytes, bool right = true);
void ro_free (const char *p);

void run_init ();
} // namespace sim

#define NEED(cond, cls, ...) do { if (!(cond)) sim::violate (cls, __VA_ARGS__); } while (0)

struct Scenario { const char *prop; const char *name; void (*fn) (); };
std::vector<Scenario> &scenarios ();
struct Reg { Reg (const char *p, const char *n, void (*f) ()) { scenarios ().push_back ({p, n, f}); } };
#define SCENARIO(prop, name) static void scn_##prop##_##name (); static Reg reg_##prop##_##name (#prop, #name, scn_##prop##_##name); static void scn_##prop##_##name ()
