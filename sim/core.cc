#include "simint.h"
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
#include <semaphore.h>
#include <pthread.h>
#include <errno.h>

Shm *shm;
bool sched_on = false;
extern "C" { int libmseed_sim_maxreclen = 10485760; }
static int64_t sched_budget;
std::vector<Scenario> &scenarios () { static std::vector<Scenario> v; return v; }

namespace sim {
static uint64_t sm (uint64_t &s)
{
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t Rng::next () { return sm (s); }

uint32_t choose (uint32_t n)
{
  if (n == 0) n = 1;
  uint32_t v;
  if (shm->replay)
    v = (shm->npos < shm->nin) ? shm->in[shm->npos++] % n : 0;
  else
    v = (uint32_t)(sm (shm->prng) % n);
  if (shm->ntrace < MAXTRACE) { shm->trace[shm->ntrace].v = v; shm->trace[shm->ntrace].n = n; shm->ntrace++; }
  else if (!shm->replay) v = 0; // beyond the recorded trace everything is simplest
  return v;
}
bool chance (uint32_t num, uint32_t den) { return choose (den) >= den - num; }
uint32_t logsize (uint32_t max)
{
  int bits = 0;
  while ((1u << bits) <= max && bits < 31) bits++;
  uint32_t b = choose (bits + 1);
  if (b == 0) return 0;
  uint32_t lo = 1u << (b - 1), hi = std::min<uint64_t> ((1ull << b) - 1, max);
  if (lo > hi) lo = hi;
  return lo + choose (hi - lo + 1);
}
Rng bulk () { return Rng (0x1234567ull * (choose (1 << 20) + 1)); }

void hash (const void *p, size_t n)
{
  const uint8_t *b = (const uint8_t *)p;
  uint64_t h = shm->evhash;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
  shm->evhash = h;
}
static void rawlog (const char *s, size_t n)
{
  hash (s, n);
  if (shm->loglen + n + 2 < MAXLOG) { memcpy (shm->logbuf + shm->loglen, s, n); shm->loglen += n; shm->logbuf[shm->loglen++] = '\n'; }
}
void log (const char *f, ...)
{
  char b[2000];
  va_list ap; va_start (ap, f); int n = vsnprintf (b, sizeof b, f, ap); va_end (ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  rawlog (b, n);
}
Str fmt (const char *f, ...)
{
  char b[4000];
  va_list ap; va_start (ap, f); int n = vsnprintf (b, sizeof b, f, ap); va_end (ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  return Str (b, n);
}
void count (const char *pfx, const char *name)
{
  char b[44]; snprintf (b, sizeof b, "%s%s", pfx, name);
  for (int i = 0; i < MAXCNT; i++)
  {
    if (!shm->cnt[i].name[0]) { memcpy (shm->cnt[i].name, b, sizeof b); shm->cnt[i].n = 1; return; }
    if (!strcmp (shm->cnt[i].name, b)) { shm->cnt[i].n++; return; }
  }
}
void fault (const char *kind) { count ("f:", kind); log ("fault %s", kind); }
void probe (const char *name) { count ("p:", name); }
void nontrivial () { shm->nontrivial = 1; }
uint64_t steps () { return shm->steps; }
void step_limit (uint64_t more) { shm->step_limit = shm->steps + more; }

void violate (const char *cls, const char *f, ...)
{
  sched_on = false;
  va_list ap; va_start (ap, f);
  snprintf (shm->cls, sizeof shm->cls, "%s", cls);
  vsnprintf (shm->msg, sizeof shm->msg, f, ap);
  va_end (ap);
  log ("VIOLATION %s: %s", cls, shm->msg);
  _exit (1);
}
void harness_error (const char *f, ...)
{
  sched_on = false;
  va_list ap; va_start (ap, f);
  snprintf (shm->cls, sizeof shm->cls, "harness-error");
  vsnprintf (shm->msg, sizeof shm->msg, f, ap);
  va_end (ap);
  shm->harness_err = 1;
  _exit (3);
}

Str isolated (const std::function<Str ()> &fn)
{
  int p[2];
  if (pipe (p)) harness_error ("pipe");
  pid_t c = fork ();
  if (c < 0) harness_error ("fork");
  if (c == 0)
  {
    close (p[0]);
    Str r = fn ();
    size_t o = 0;
    while (o < r.size ()) { ssize_t w = write (p[1], r.data () + o, r.size () - o); if (w <= 0) break; o += w; }
    _exit (0);
  }
  close (p[1]);
  Str r; char b[65536]; ssize_t n;
  while ((n = read (p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) r.append (b, n);
  close (p[0]);
  int st;
  while (waitpid (c, &st, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return r;
  if (WIFEXITED (st)) _exit (WEXITSTATUS (st));
  signal (WTERMSIG (st), SIG_DFL);
  kill (getpid (), WTERMSIG (st));
  _exit (99);
}

// ---- threads ------------------------------------------------------------------
struct Th { sem_t sem; pthread_t t; std::function<void ()> fn; bool done = false; int id; };
static std::vector<Th *> *ths;
static sem_t main_sem;
static thread_local int my_id = -1;
static int cur_th, policy_;
static uint64_t sched_rng;
bool in_threads () { return sched_on; }

static void next_budget ()
{
  // mostly short slices, sometimes long, so that both fine and coarse interleavings occur
  uint64_t r = sm (sched_rng);
  switch (policy_)
  {
  case 0: sched_budget = 1 + r % 64; break;
  case 1: { int b = r % 12; sched_budget = 1 + (sm (sched_rng) & ((1ull << b) - 1)); break; }
  case 2: sched_budget = 1 + r % 4; break;
  default: { int b = r % 18; sched_budget = 1 + (sm (sched_rng) & ((1ull << b) - 1)); break; }
  }
}
static int pick_next ()
{
  int n = 0;
  for (auto t : *ths) if (!t->done) n++;
  if (!n) return -1;
  int k = sm (sched_rng) % n;
  for (size_t i = 0; i < ths->size (); i++) if (!(*ths)[i]->done && k-- == 0) return i;
  return -1;
}
static void switch_to (int nx)
{
  shm->switches++;
  shm->schedhash = (shm->schedhash ^ (uint64_t)(nx + 1) ^ (shm->steps << 8)) * 0x100000001b3ull;
  cur_th = nx;
  sem_post (&(*ths)[nx]->sem);
}
void preempt_point ()
{
  if (!sched_on || my_id < 0) return;
  if (--sched_budget > 0) return;
  next_budget ();
  int nx = pick_next ();
  if (nx < 0 || nx == my_id) return;
  int me = my_id;
  switch_to (nx);
  while (sem_wait (&(*ths)[me]->sem)) ;
}
static void *th_main (void *a)
{
  Th *t = (Th *)a;
  my_id = t->id;
  while (sem_wait (&t->sem)) ;
  t->fn ();
  t->done = true;
  int nx = pick_next ();
  if (nx >= 0) switch_to (nx);
  else sem_post (&main_sem);
  return NULL;
}
void threads (const std::vector<std::function<void ()>> &bodies, int policy)
{
  std::vector<Th *> v;
  ths = &v;
  policy_ = policy;
  sched_rng = 0x5bd1e995ull * (choose (1 << 20) + 1);
  sem_init (&main_sem, 0, 0);
  for (size_t i = 0; i < bodies.size (); i++)
  {
    Th *t = new Th; t->fn = bodies[i]; t->id = i;
    sem_init (&t->sem, 0, 0);
    v.push_back (t);
  }
  for (auto t : v)
  {
    pthread_attr_t at; pthread_attr_init (&at); pthread_attr_setstacksize (&at, 1 << 20);
    if (pthread_create (&t->t, &at, th_main, t)) harness_error ("pthread_create");
  }
  next_budget ();
  sched_on = true;
  switch_to (pick_next ());
  while (sem_wait (&main_sem)) ;
  sched_on = false;
  for (auto t : v) { pthread_join (t->t, NULL); delete t; }
  ths = NULL;
}

const char *ro_copy (const Str &bytes, bool right)
{
  size_t pg = 4096, n = (bytes.size () + pg - 1) / pg * pg;
  if (n == 0) n = pg;
  char *m = (char *)mmap (NULL, n + 3 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) harness_error ("mmap");
  mprotect (m + pg, n, PROT_READ | PROT_WRITE);
  char *p = right ? m + pg + n - bytes.size () : m + pg;
  memset (m + pg, 0x5a, n);
  memcpy (p, bytes.data (), bytes.size ());
  mprotect (m + pg, n, PROT_READ);
  return p;
}
void ro_free (const char *) {}
} // namespace sim

extern "C" {
static void hang_now ()
{
  shm->step_limit = 0;
  sim::violate ("hang:steps", "no completion within the simulated step budget");
}
void __sanitizer_cov_trace_pc_guard_init (uint32_t *start, uint32_t *stop)
{
  static uint32_t n = 0;
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) *x = ++n;
}
void __sanitizer_cov_trace_pc_guard (uint32_t *g)
{
  if (!shm) return;
  uint8_t &c = shm->cov[*g & (COVSZ - 1)];
  if (c < 255) c++;
  shm->steps++;
  if (shm->step_limit && shm->steps > shm->step_limit) hang_now ();
  if (sched_on) sim::preempt_point ();
}
#define MEMCB(nm) void nm (void *) { if (sched_on) sim::preempt_point (); }
MEMCB (__sanitizer_cov_load1) MEMCB (__sanitizer_cov_load2) MEMCB (__sanitizer_cov_load4) MEMCB (__sanitizer_cov_load8) MEMCB (__sanitizer_cov_load16)
MEMCB (__sanitizer_cov_store1) MEMCB (__sanitizer_cov_store2) MEMCB (__sanitizer_cov_store4) MEMCB (__sanitizer_cov_store8) MEMCB (__sanitizer_cov_store16)
}
