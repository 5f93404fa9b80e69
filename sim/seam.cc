// Seams: stdio, descriptors, allocator, clock, environment, exit.
#include "simint.h"
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <setjmp.h>
#include <time.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <unordered_map>
#include <pthread.h>

#define preempt_point_if() do { if (sched_on) sim::preempt_point (); } while (0)
extern "C" {
FILE *sim_stdin, *sim_stdout, *sim_stderr;
}
namespace sim {
// ---------------------------------------------------------------- files
struct Cookie { Str name; File *f; uint64_t pos; bool rd, wr, app, dead; bool failed_once; Rng rng; bool isstd; };
static std::map<Str, File> *files;
static std::map<FILE *, Cookie *> *streams;
static std::map<int, Str> *fds;
static int next_fd = 1000;
static bool in_crash_scope = false;
static jmp_buf crash_jb;

File &file (const Str &n) { return (*files)[n]; }
bool has_file (const Str &n) { return files->count (n) > 0; }
void rm_file (const Str &n) { files->erase (n); }
int open_streams () { int n = 0; for (auto &s : *streams) if (!s.second->isstd && !s.second->dead) n++; return n; }
int open_fds () { return (int)fds->size (); }
int make_fd (const Str &n) { int fd = next_fd++; (*fds)[fd] = n; return fd; }
Str out_text () { return file ("<stdout>").data; }
Str err_text () { return file ("<stderr>").data; }

static ssize_t ck_read (void *c, char *buf, size_t n)
{
  Cookie *k = (Cookie *)c; File &f = *k->f; ReadPlan &rp = f.rp;
  if (!k->rd) { errno = EBADF; return -1; }
  uint64_t end = f.hole + f.data.size ();
  bool fail = false;
  if (rp.fail_at >= 0)
  {
    if (rp.cut) end = std::min<uint64_t> (end, rp.fail_at);
    else if (!(rp.transient && k->failed_once))
    {
      if (k->pos >= (uint64_t)rp.fail_at) fail = true;
      else end = std::min<uint64_t> (end, rp.fail_at);
    }
    if (rp.cut && k->pos >= end && !k->failed_once) { k->failed_once = true; fault ("read-cut"); }
  }
  if (fail) { k->failed_once = true; f.read_failed = true; fault ("read-error"); errno = rp.err; return -1; }
  if (k->pos >= end) return 0;
  size_t m = std::min<uint64_t> (n, end - k->pos);
  if (rp.style == 1 && rp.unit) m = std::min<size_t> (m, rp.unit);
  else if (rp.style == 2) m = std::min<size_t> (m, 1 + k->rng.below (rp.unit ? rp.unit : 4096));
  if (m < n && m < end - k->pos) count ("f:", "short-read");
  if (k->pos >= f.hole) memcpy (buf, f.data.data () + (k->pos - f.hole), m);
  else { m = std::min<uint64_t> (m, f.hole - k->pos); memset (buf, 0, m); count ("f:", "hole-read"); }
  k->pos += m;
  return m;
}
static bool std_quiet (Cookie *k) { return k->isstd; }
static void store (Cookie *k, const char *buf, size_t n)
{
  File &f = *k->f; if (f.hole) harness_error ("writing a file with a hole");
  if (k->app) k->pos = f.data.size ();
  if (k->pos > f.data.size ()) f.data.resize (k->pos, 0);
  f.data.replace (k->pos, std::min<size_t> (n, f.data.size () - k->pos), buf, n);
  k->pos += n; f.accepted += n;
}
static ssize_t ck_write (void *c, const char *buf, size_t n)
{
  Cookie *k = (Cookie *)c;
  if (k->dead) return n;
  if (!k->wr) { errno = EBADF; return 0; }
  File &f = *k->f; WritePlan &wp = f.wp;
  uint64_t room = n;
  int err = 0;
  if (wp.crash_at >= 0 && f.accepted + n > (uint64_t)wp.crash_at)
  {
    size_t m = wp.crash_at > (int64_t)f.accepted ? wp.crash_at - f.accepted : 0;
    store (k, buf, m);
    fault ("crash");
    if (in_crash_scope) { in_crash_scope = false; longjmp (crash_jb, 1); }
    harness_error ("crash outside scope");
  }
  if (wp.capacity >= 0 && f.data.size () + n > (uint64_t)wp.capacity) { room = wp.capacity > (int64_t)f.data.size () ? wp.capacity - f.data.size () : 0; err = ENOSPC; }
  if (wp.fail_at >= 0 && f.accepted + n > (uint64_t)wp.fail_at && !(wp.transient && f.write_failed))
  {
    uint64_t r2 = wp.fail_at > (int64_t)f.accepted ? wp.fail_at - f.accepted : 0;
    if (r2 < room) { room = r2; err = wp.err; }
  }
  if (room < n)
  {
    store (k, buf, room);
    f.write_failed = true;
    fault (err == ENOSPC ? "write-enospc" : "write-error");
    errno = err;
    return room; // short count: stdio reports an error
  }
  store (k, buf, n);
  (void)std_quiet;
  return n;
}
static int ck_seek (void *c, off64_t *off, int whence)
{
  Cookie *k = (Cookie *)c; File &f = *k->f;
  if (f.is_pipe || f.seek_fails) { if (f.seek_fails) fault ("seek-error"); errno = f.is_pipe ? ESPIPE : EIO; return -1; }
  int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)k->pos : (int64_t)(f.hole + f.data.size ());
  if (b + *off < 0) { errno = EINVAL; return -1; }
  k->pos = b + *off; *off = k->pos;
  return 0;
}
static int ck_close (void *c)
{
  Cookie *k = (Cookie *)c;
  if (k->dead) return 0;
  k->f->closes++;
  k->dead = true;
  if (k->wr && k->f->wp.close_fails) { k->f->close_failed = true; fault ("close-error"); errno = EDQUOT; return -1; }
  return 0;
}
static FILE *mkstream (const Str &name, bool rd, bool wr, bool app, bool isstd = false)
{
  Cookie *k = new Cookie; k->name = name; k->f = &(*files)[name]; k->pos = 0; k->rd = rd; k->wr = wr; k->app = app; k->dead = false; k->failed_once = false; k->isstd = isstd;
  k->rng = Rng (k->f->rp.seed);
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  FILE *fp = fopencookie (k, rd && wr ? "r+" : wr ? (app ? "a" : "w") : "r", io);
  if (!fp) harness_error ("fopencookie");
  if (wr && k->f->wp.flush_only_at_close) setvbuf (fp, NULL, _IOFBF, 1 << 20);
  else if (rd && k->f->rp.style && (k->f->rp.seed & 1)) setvbuf (fp, NULL, _IOFBF, 64 + (k->f->rp.seed >> 8) % 5000);
  k->f->opens++;
  (*streams)[fp] = k;
  return fp;
}
void set_stdin (const Str &name) { sim_stdin = mkstream (name, true, false, false, true); }
void std_init ()
{
  (*files)["<stdout>"] = File (); (*files)["<stderr>"] = File ();
  sim_stdout = mkstream ("<stdout>", false, true, false, true);
  sim_stderr = mkstream ("<stderr>", false, true, false, true);
  setvbuf (sim_stderr, NULL, _IONBF, 0);
  if (!files->count ("<stdin>")) (*files)["<stdin>"] = File ();
  sim_stdin = mkstream ("<stdin>", true, false, false, true);
}
static Cookie *live (FILE *fp, const char *what)
{
  auto i = streams->find (fp);
  if (i == streams->end () || i->second->dead) violate ("stream:use-after-close", "%s on a stream that is not open", what);
  return i->second;
}
bool run_until_crash (const std::function<void ()> &fn)
{
  if (setjmp (crash_jb))
  {
    // the process died: nothing buffered survives
    for (auto &s : *streams) s.second->dead = true;
    std_init ();
    return true;
  }
  in_crash_scope = true;
  fn ();
  in_crash_scope = false;
  return false;
}
ReadPlan random_read_plan ()
{
  ReadPlan p;
  p.style = choose (3);
  if (p.style) { static const uint32_t u[] = { 4096, 1, 7, 40, 64, 100, 512, 1000, 8192, 3 }; p.unit = u[choose (10)]; p.seed = choose (1 << 16); }
  return p;
}

// ---------------------------------------------------------------- allocator
struct Blk { size_t n; int tag; uint64_t seq; };
static std::unordered_map<void *, Blk> *blks;
static uint64_t acalls, afailed;
static int64_t afail_at = -1, afail_n = 0;
static int afill = -1;
static bool amove = false;
static size_t abytes;
void alloc_reset () { acalls = afailed = 0; afail_at = -1; afail_n = 0; }
void alloc_fail_at (int64_t k, int64_t n) { afail_at = acalls + k; afail_n = n; }
void alloc_fail_off () { afail_at = -1; afail_n = 0; }
uint64_t alloc_calls () { return acalls; }
uint64_t alloc_failed () { return afailed; }
size_t live_blocks () { return blks->size (); }
size_t live_bytes () { return abytes; }
Str live_desc ()
{
  std::vector<std::pair<uint64_t, size_t>> v;
  for (auto &b : *blks) v.push_back ({ b.second.seq, b.second.n });
  std::sort (v.begin (), v.end ());
  Str s;
  for (size_t i = 0; i < v.size () && i < 12; i++) s += fmt (" #%lu:%zu", (unsigned long)v[i].first, v[i].second);
  return s;
}
void alloc_fill (int b) { afill = b; }
void alloc_move (bool m) { amove = m; }
static bool afail (size_t n)
{
  uint64_t c = acalls++;
  if (afail_at >= 0 && (int64_t)c >= afail_at && (int64_t)c < afail_at + afail_n) { afailed++; fault ("alloc-fail"); errno = ENOMEM; return true; }
  if (n > (400u << 20)) { count ("p:", "alloc-refused-huge"); errno = ENOMEM; return true; }
  return false;
}
static void *amalloc (size_t n, int tag)
{
  if (afail (n)) return NULL;
  void *p = malloc (n);
  if (!p) return NULL;
  if (afill >= 0 && n <= (1 << 16)) memset (p, afill, n);
  (*blks)[p] = { n, tag, acalls - 1 };
  abytes += n;
  return p;
}
static void afree (void *p, int tag)
{
  if (!p) return;
  auto i = blks->find (p);
  if (i == blks->end ()) violate ("alloc:bad-free", "freeing memory that is not allocated (double free or foreign pointer)");
  if (i->second.tag != tag) violate ("alloc:mismatch", "memory obtained from one allocator is released with another (block of %zu bytes)", i->second.n);
  abytes -= i->second.n;
  blks->erase (i);
  free (p);
}
static void *arealloc (void *p, size_t n, int tag)
{
  if (!p) return amalloc (n, tag);
  auto i = blks->find (p);
  if (i == blks->end ()) violate ("alloc:bad-realloc", "reallocating memory that is not allocated");
  if (i->second.tag != tag) violate ("alloc:mismatch", "memory obtained from one allocator is reallocated with another");
  if (n == 0) { afree (p, tag); return NULL; }
  if (afail (n)) return NULL;
  size_t old = i->second.n;
  void *q = malloc (n);
  if (!q) return NULL;
  memcpy (q, p, old < n ? old : n);
  if (afill >= 0 && n > old && n - old <= (1 << 16)) memset ((char *)q + old, afill, n - old);
  abytes += n; abytes -= old;
  blks->erase (i);
  free (p);
  (*blks)[q] = { n, tag, acalls - 1 };
  return q;
}
static void *l_malloc (size_t n) { return amalloc (n, 1); }
static void *l_realloc (void *p, size_t n) { return arealloc (p, n, 1); }
static void l_free (void *p) { afree (p, 1); }
size_t alloc_size (const void *p) { auto i = blks->find ((void *)p); return i == blks->end () ? 0 : i->second.n; }
void install_allocator () { libmseed_memory.malloc = l_malloc; libmseed_memory.realloc = l_realloc; libmseed_memory.free = l_free; }
void *user_alloc (size_t n) { return libmseed_memory.malloc (n); }
void user_free (void *p) { libmseed_memory.free (p); }

// ---------------------------------------------------------------- clock, env
int64_t clock_base = 1700000000;
int tz_offset = 0;
static uint64_t cj_seed = 0; static int64_t cj_max = 0, cj_now = 0; static Rng cj_rng;
void clock_jump_plan (uint64_t seed, int64_t maxjump) { cj_seed = seed; cj_max = maxjump; cj_rng = Rng (seed); cj_now = 0; }
uint64_t vtime_ns () { return shm->vtime; }
static void clock_call ()
{
  if (cj_max) { cj_now += (int64_t)(cj_rng.next () % (2 * cj_max + 1)) - cj_max; count ("f:", "clock-jump"); }
}
static std::map<Str, Str> *env;
void set_env (const Str &k, const Str &v) { (*env)[k] = v; }
void clear_env () { env->clear (); }

// ---------------------------------------------------------------- program
// a process starts with the library's default log settings
extern "C" __thread MSLogParam gMSLogParam __attribute__ ((weak));
static jmp_buf exit_jb; static bool in_exit_scope; static int exit_status;
MsiResult run_msi (const std::vector<Str> &args)
{
  MsiResult r; r.exited = false;
  std::vector<char *> av;
  std::vector<Str> *keep = new std::vector<Str> (args);
  keep->insert (keep->begin (), "msi");
  for (auto &a : *keep) av.push_back ((char *)a.c_str ());
  av.push_back (NULL);
  std::vector<char *> *avp = new std::vector<char *> (av);
  Str cl; for (auto &a : args) cl += " " + a;
  log ("exec msi%s", cl.c_str ());
  if (&gMSLogParam) gMSLogParam = MSLogParam ();
  volatile int st;
  if (setjmp (exit_jb)) { st = exit_status; r.exited = true; }
  else { in_exit_scope = true; st = msi_main ((int)keep->size (), avp->data ()); }
  in_exit_scope = false;
  r.status = st & 0xff;
  // process end: stdio flushes what is still buffered; failures are not reported by exit()
  std::vector<FILE *> fl;
  for (auto &s : *streams) if (!s.second->dead && s.second->wr) fl.push_back (s.first);
  for (auto fp : fl) fflush (fp);
  r.out = out_text (); r.err = err_text ();
  ms_rloginit ([] (const char *) {}, "", [] (const char *) {}, "", 0);
  log ("msi status %d, stdout %zu bytes, stderr %zu bytes", r.status, r.out.size (), r.err.size ());
  hashs (r.out); hashs (r.err);
  return r;
}

void net_init ();
void run_init ()
{
  files = new std::map<Str, File>; streams = new std::map<FILE *, Cookie *>; fds = new std::map<int, Str>;
  blks = new std::unordered_map<void *, Blk>; env = new std::map<Str, Str>;
  net_init ();
  std_init ();
}
} // namespace sim
using namespace sim;

extern "C" {
// ---- stdio
FILE *sim_fopen (const char *path, const char *mode)
{
  preempt_point_if ();
  bool rd = strchr (mode, 'r') || strchr (mode, '+'), wr = strchr (mode, 'w') || strchr (mode, 'a') || strchr (mode, '+'), app = strchr (mode, 'a');
  if (!path[0]) { errno = ENOENT; return NULL; }
  bool ex = has_file (path);
  if (ex && file (path).open_errno) { fault ("open-error"); errno = file (path).open_errno; return NULL; }
  if (!ex && !wr) { errno = ENOENT; return NULL; }
  if (!ex && strchr (mode, 'r')) { errno = ENOENT; return NULL; }
  if (strchr (mode, 'w')) file (path).data.clear ();
  return mkstream (path, rd, wr, app);
}
FILE *sim_fopen64 (const char *p, const char *m) { return sim_fopen (p, m); }
FILE *sim_fdopen (int fd, const char *mode)
{
  auto i = fds->find (fd);
  if (i == fds->end ()) { errno = EBADF; return NULL; }
  if (file (i->second).open_errno) { fault ("fdopen-error"); errno = file (i->second).open_errno; return NULL; }
  Str n = i->second;
  fds->erase (i);
  return mkstream (n, true, strchr (mode, 'w') != NULL, false);
}
int sim_fclose (FILE *fp)
{
  preempt_point_if ();
  live (fp, "fclose");
  Cookie *k = (*streams)[fp];
  int r = fclose (fp);
  k->dead = true;
  streams->erase (fp);
  return r;
}
size_t sim_fread (void *b, size_t s, size_t n, FILE *fp) { preempt_point_if (); live (fp, "fread"); return fread (b, s, n, fp); }
size_t sim_fwrite (const void *b, size_t s, size_t n, FILE *fp) { preempt_point_if (); live (fp, "fwrite"); return fwrite (b, s, n, fp); }
char *sim_fgets (char *b, int n, FILE *fp) { preempt_point_if (); live (fp, "fgets"); return fgets (b, n, fp); }
int sim_fgetc (FILE *fp) { live (fp, "fgetc"); return fgetc (fp); }
int sim_getc (FILE *fp) { live (fp, "getc"); return fgetc (fp); }
int sim_ungetc (int c, FILE *fp) { live (fp, "ungetc"); return ungetc (c, fp); }
int sim_feof (FILE *fp) { live (fp, "feof"); return feof (fp); }
int sim_ferror (FILE *fp) { live (fp, "ferror"); return ferror (fp); }
void sim_clearerr (FILE *fp) { live (fp, "clearerr"); clearerr (fp); }
int sim_fflush (FILE *fp) { if (fp) live (fp, "fflush"); else return 0; return fflush (fp); }
int sim_fseek (FILE *fp, long o, int w) { live (fp, "fseek"); return fseek (fp, o, w); }
int sim_fseeko (FILE *fp, off_t o, int w) { preempt_point_if (); live (fp, "fseeko"); return fseeko (fp, o, w); }
long sim_ftell (FILE *fp) { live (fp, "ftell"); return ftell (fp); }
int sim_fseeko64 (FILE *fp, off_t o, int w) { return sim_fseeko (fp, o, w); }

off_t sim_ftello (FILE *fp) { live (fp, "ftello"); return ftello (fp); }
off_t sim_ftello64 (FILE *fp) { return sim_ftello (fp); }
void sim_rewind (FILE *fp) { live (fp, "rewind"); rewind (fp); }
int sim_setvbuf (FILE *fp, char *b, int m, size_t n) { live (fp, "setvbuf"); return setvbuf (fp, b, m, n); }
int sim_fileno (FILE *fp) { if (fp == sim_stdin) return 0; if (fp == sim_stdout) return 1; if (fp == sim_stderr) return 2; live (fp, "fileno"); errno = EBADF; return -1; }
int sim_fprintf (FILE *fp, const char *f, ...) { preempt_point_if (); live (fp, "fprintf"); va_list ap; va_start (ap, f); int r = vfprintf (fp, f, ap); va_end (ap); return r; }
int sim_vfprintf (FILE *fp, const char *f, va_list ap) { preempt_point_if (); live (fp, "vfprintf"); return vfprintf (fp, f, ap); }
int sim_fputs (const char *s, FILE *fp) { live (fp, "fputs"); return fputs (s, fp); }
int sim_fputc (int c, FILE *fp) { live (fp, "fputc"); return fputc (c, fp); }
int sim_putc (int c, FILE *fp) { live (fp, "putc"); return fputc (c, fp); }
int sim_printf (const char *f, ...) { preempt_point_if (); va_list ap; va_start (ap, f); int r = vfprintf (sim_stdout, f, ap); va_end (ap); return r; }
int sim_vprintf (const char *f, va_list ap) { preempt_point_if (); return vfprintf (sim_stdout, f, ap); }
int sim_puts (const char *s) { int r = fputs (s, sim_stdout); if (r >= 0) r = fputc ('\n', sim_stdout); return r < 0 ? EOF : 1; }
int sim_putchar (int c) { return fputc (c, sim_stdout); }
void sim_perror (const char *s) { fprintf (sim_stderr, "%s: %s\n", s, strerror (errno)); }
ssize_t sim_getline (char **l, size_t *n, FILE *fp)
{
  live (fp, "getline");
  size_t len = 0; int c;
  while ((c = fgetc (fp)) != EOF)
  {
    if (!*l || len + 2 > *n)
    {
      size_t nn = *n ? *n * 2 : 120; char *q = (char *)arealloc (*l, nn, 0);
      if (!q) return -1;
      *l = q; *n = nn;
    }
    (*l)[len++] = c;
    if (c == '\n') break;
  }
  if (!len) return -1;
  (*l)[len] = 0;
  return len;
}
int sim_remove (const char *p) { if (!has_file (p)) { errno = ENOENT; return -1; } rm_file (p); return 0; }
int sim_rename (const char *a, const char *b) { if (!has_file (a)) { errno = ENOENT; return -1; } file (b) = file (a); rm_file (a); return 0; }
int sim_access (const char *p, int) { if (has_file (p)) return 0; errno = ENOENT; return -1; }
int sim_stat (const char *p, struct stat *st) { if (!has_file (p)) { errno = ENOENT; return -1; } memset (st, 0, sizeof *st); st->st_size = file (p).data.size (); st->st_mode = S_IFREG | 0644; return 0; }
int sim_close (int fd) { if (!fds->erase (fd)) { errno = EBADF; return -1; } return 0; }
// ---- allocator
void *sim_malloc (size_t n) { preempt_point_if (); return amalloc (n, 0); }
void *sim_calloc (size_t a, size_t b) { void *p = amalloc (a * b, 0); if (p) memset (p, 0, a * b); return p; }
void *sim_realloc (void *p, size_t n) { preempt_point_if (); return arealloc (p, n, 0); }
void sim_free (void *p) { preempt_point_if (); afree (p, 0); }
char *sim_strdup (const char *s) { size_t n = strlen (s) + 1; char *p = (char *)amalloc (n, 0); if (p) memcpy (p, s, n); return p; }
char *sim_strndup (const char *s, size_t m) { size_t n = strnlen (s, m); char *p = (char *)amalloc (n + 1, 0); if (p) { memcpy (p, s, n); p[n] = 0; } return p; }
int sim_posix_memalign (void **o, size_t, size_t n) { void *p = amalloc (n, 0); if (!p) return ENOMEM; *o = p; return 0; }
// ---- clock
static int64_t now_s () { clock_call (); return clock_base + cj_now + (int64_t)(shm->vtime / 1000000000); }
time_t sim_time (time_t *t) { time_t s = now_s (); if (t) *t = s; return s; }
int sim_gettimeofday (struct timeval *tv, void *) { tv->tv_sec = now_s (); tv->tv_usec = shm->vtime % 1000000000 / 1000; return 0; }
int sim_clock_gettime (clockid_t, struct timespec *ts) { ts->tv_sec = now_s (); ts->tv_nsec = shm->vtime % 1000000000; return 0; }
struct tm *sim_localtime_r (const time_t *t, struct tm *r) { time_t x = *t + tz_offset; return gmtime_r (&x, r); }
struct tm *sim_localtime (const time_t *t) { static struct tm b; return sim_localtime_r (t, &b); }
struct tm *sim_gmtime (const time_t *t) { static struct tm b; return gmtime_r (t, &b); }
time_t sim_mktime (struct tm *t) { return timegm (t) - tz_offset; }
clock_t sim_clock () { return shm->vtime / 1000; }
int sim_nanosleep (const struct timespec *r, struct timespec *rem)
{
  shm->vtime += r->tv_sec * 1000000000ull + r->tv_nsec;
  if (rem) rem->tv_sec = rem->tv_nsec = 0;
  return 0;
}
int sim_usleep (unsigned u) { shm->vtime += u * 1000ull; return 0; }
unsigned sim_sleep (unsigned s) { shm->vtime += s * 1000000000ull; return 0; }
int sim_rand () { return 4; }
int sim_getpid () { return 4242; }
// ---- env, exit
char *sim_getenv (const char *k) { auto i = env->find (k); return i == env->end () ? NULL : (char *)i->second.c_str (); }
void sim_exit (int st)
{
  log ("exit(%d)", st);
  if (!in_exit_scope) violate ("exit:library", "the library ended the process with exit(%d)", st);
  exit_status = st; in_exit_scope = false; longjmp (exit_jb, 1);
}
void sim__exit (int st) { sim_exit (st); }
void sim_abort () { violate ("crash:abort", "abort() called"); }
// ---- pthread seams so that code may use locks under the one-at-a-time scheduler
int sim_pthread_mutex_lock (pthread_mutex_t *m) { while (pthread_mutex_trylock (m)) { if (!sched_on) return pthread_mutex_lock (m); sim::preempt_point (); shm->steps++; } return 0; }
int sim_pthread_mutex_unlock (pthread_mutex_t *m) { int r = pthread_mutex_unlock (m); preempt_point_if (); return r; }
int sim_pthread_once (pthread_once_t *o, void (*f) (void)) { if (*o == 2) return 0; if (*o == 1) { while (*o != 2) { sim::preempt_point (); } return 0; } *o = 1; f (); *o = 2; return 0; }
// ---- preemption inside common library calls (used by the thread build only)
void *sim_memcpy (void *d, const void *s, size_t n) { preempt_point_if (); void *r = memcpy (d, s, n); preempt_point_if (); return r; }
void *sim_memmove (void *d, const void *s, size_t n) { preempt_point_if (); void *r = memmove (d, s, n); preempt_point_if (); return r; }
void *sim_memset (void *d, int c, size_t n) { preempt_point_if (); void *r = memset (d, c, n); preempt_point_if (); return r; }
int sim_vsnprintf (char *b, size_t n, const char *f, va_list ap) { preempt_point_if (); int r = vsnprintf (b, n, f, ap); preempt_point_if (); return r; }
int sim_snprintf (char *b, size_t n, const char *f, ...) { preempt_point_if (); va_list ap; va_start (ap, f); int r = vsnprintf (b, n, f, ap); va_end (ap); preempt_point_if (); return r; }
int sim_sprintf (char *b, const char *f, ...) { preempt_point_if (); va_list ap; va_start (ap, f); int r = vsprintf (b, f, ap); va_end (ap); preempt_point_if (); return r; }
char *sim_strncpy (char *d, const char *s, size_t n) { preempt_point_if (); char *r = strncpy (d, s, n); preempt_point_if (); return r; }
char *sim_strcpy (char *d, const char *s) { preempt_point_if (); char *r = strcpy (d, s); preempt_point_if (); return r; }
size_t sim_strlen (const char *s) { preempt_point_if (); return strlen (s); }
int sim_strcmp (const char *a, const char *b) { preempt_point_if (); return strcmp (a, b); }
char *sim_strtok (char *s, const char *d) { preempt_point_if (); char *r = strtok (s, d); preempt_point_if (); return r; }
}
