// Simulated network behind the libcurl interface.
#include "simint.h"
#include <curl/curl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <errno.h>
#include <sys/select.h>
#include <sys/time.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
#undef curl_multi_setopt

namespace sim {
typedef size_t (*cbfn) (char *, size_t, size_t, void *);
struct Multi;
struct Easy {
  Str url, range, ua, userpwd; cbfn wfn = 0, hfn = 0; void *wdata = 0, *hdata = 0; bool failonerror = false, follow = false; struct curl_slist *headers = 0; long auth = 0; bool verify_peer = true, verify_host = true; long timeout_ms = 0, conn_timeout_ms = 0, lowlimit = 0, lowtime = 0; char *errbuf = 0;
  Multi *m = 0;
  // transfer
  int st = 0; // 0 connect 1 headers 2 body 3 trailer 4 done
  int hop = 0; long code = 0; CURLcode result = CURLE_OK; bool msg_pending = false;
  uint64_t ready = 0; uint64_t off = 0, from = 0, to = 0; bool paused = false; Str pending; bool has_pending = false;
  Rng rng; Server *s = 0;
  std::vector<Str> hl; size_t hi = 0;
};
struct Multi { std::vector<Easy *> e; CURLMsg msg; uint64_t idle = 0; };
static std::map<Str, Server> *servers;
static std::set<Easy *> *easies; static std::set<Multi *> *multis;
static int nslist;
static std::vector<NetReq> *reqs;
static int64_t nf_at = -1, nf_count, nf_calls, nf_failed;
std::vector<NetReq> &net_requests () { return *reqs; }
void net_fail_at (int64_t k, int64_t c) { nf_at = k; nf_count = c; nf_calls = nf_failed = 0; }
void net_fail_off () { nf_at = -1; }
uint64_t net_mem_calls () { return nf_calls; }
uint64_t net_mem_failed () { return nf_failed; }
static bool no_memory ()
{
  int64_t n = nf_calls++; if (nf_at < 0 || n < nf_at || n >= nf_at + nf_count) return false;
  nf_failed++; fault ("curl-no-memory"); return true;
}
static uint64_t idle_calls;
static int64_t setopt_calls;
void net_init () { servers = new std::map<Str, Server>; reqs = new std::vector<NetReq>; nf_at = -1; nf_calls = nf_failed = 0; easies = new std::set<Easy *>; multis = new std::set<Multi *>; nslist = 0; idle_calls = 0; setopt_calls = 0; }
Server &server (const Str &u) { return (*servers)[u]; }
int open_handles () { return easies->size () + multis->size (); }
int slists () { return nslist; }
void random_schedule (Server &s)
{
  s.chunk_style = choose (3);
  static const uint32_t u[] = { 16384, 1, 40, 100, 512, 1460, 4096, 8192, 16383, 3 };
  s.unit = u[choose (10)];
  s.seed = choose (1 << 16);
  s.per_perform = choose (4);
  s.delay_ms = choose (2) ? choose (3000) : 0;
  s.unpause_immediate = choose (2);
  s.nofd = choose (2); s.timer = !s.nofd && choose (6) == 5;
  if (s.chunk_style && s.unit < 512 && s.body.size () > 4096) s.delay_ms = std::min<uint32_t> (s.delay_ms, 50); // bounds the work of one run
  s.eintr = choose (4) == 3 ? 3 : 0;
  s.lower_case = choose (3) == 2;
  s.http2 = choose (3) == 2;
}
static Easy *E (CURL *h) { Easy *e = (Easy *)h; if (!easies->count (e)) violate ("curl:bad-handle", "libcurl called with a handle that is not open"); return e; }
static Multi *M (CURLM *h) { Multi *m = (Multi *)h; if (!multis->count (m)) violate ("curl:bad-handle", "libcurl called with a multi handle that is not open"); return m; }
static void done (Easy *e, CURLcode r) { e->st = 4; e->result = r; e->msg_pending = true; e->has_pending = false; if (r != CURLE_OK) log ("net: transfer failed, code %d", (int)r); else log ("net: transfer complete"); }

static bool deliver_headers (Easy *e)
{
  while (e->hi < e->hl.size ())
  {
    Str l = e->hl[e->hi++];
    if (!e->hfn) continue;
    char *b = (char *)malloc (l.size () ? l.size () : 1); // exact size: not NUL terminated
    memcpy (b, l.data (), l.size ());
    size_t r = e->hfn (b, 1, l.size (), e->hdata);
    free (b);
    if (r != l.size ()) { done (e, CURLE_WRITE_ERROR); return false; }
  }
  return true;
}
static void start_response (Easy *e)
{
  Server &s = *e->s;
  Str eol = "\r\n";
  e->hl.clear (); e->hi = 0;
  auto H = [&] (Str n, Str v) { if (s.lower_case) for (auto &c : n) c = tolower (c); e->hl.push_back (n + ": " + v + eol); };
  Str ver = s.http2 ? "HTTP/2 " : "HTTP/1.1 ";
  if (e->hop < s.redirects && e->follow)
  {
    e->code = 302;
    e->hl.push_back (ver + "302 Found" + eol);
    H ("Location", "http://elsewhere/x"); H ("Content-Length", "0");
    if (s.long_header) H ("X-Range", "bytes 7-9/100");
    e->hl.push_back (eol);
    return;
  }
  int64_t L = s.hole + s.body.size (), a = 0, b = L - 1; bool ranged = false;
  if (!e->range.empty () && s.ranges)
  {
    long long x = 0, y = -1; size_t d = e->range.find ('-');
    x = strtoll (e->range.c_str (), 0, 10);
    if (d != Str::npos && d + 1 < e->range.size ()) y = strtoll (e->range.c_str () + d + 1, 0, 10);
    a = x + s.shift; b = y >= 0 ? y + s.shift : L - 1;
    if (a < 0) a = 0;
    if (b >= L) b = L - 1;
    ranged = true;
  }
  int st = s.status;
  if (!st) st = ranged ? (a >= L || b < a ? 416 : 206) : 200;
  if (s.status) { ranged = false; a = 0; b = L - 1; }
  e->code = st;
  e->hl.push_back (ver + fmt ("%d X", st) + eol);
  if (s.long_header) { H ("X-Filler", Str (300, 'x')); H ("Content-Rangeish", "bytes 11-22/33"); e->hl.push_back ("Odd" + eol); }
  H ("Content-Type", "application/octet-stream");
  if (st == 206) { H ("Content-Range", s.range_text.size () ? s.range_text : fmt ("bytes %lld-%lld/%lld", (long long)a, (long long)b, (long long)L)); log ("net: 206 bytes %lld-%lld/%lld", (long long)a, (long long)b, (long long)L); }
  else log ("net: response %d", st);
  if (st == 416) { H ("Content-Range", fmt ("bytes */%lld", (long long)L)); a = 0; b = -1; }
  e->hl.push_back (eol);
  e->from = a; e->to = b + 1; e->off = a;
}
// hand one chunk over; false when paused or finished with error
static bool give (Easy *e)
{
  char *b = (char *)malloc (e->pending.size () ? e->pending.size () : 1);
  memcpy (b, e->pending.data (), e->pending.size ());
  size_t n = e->pending.size ();
  size_t r = e->wfn ? e->wfn (b, 1, n, e->wdata) : n;
  free (b);
  if (r == CURL_WRITEFUNC_PAUSE) { e->paused = true; count ("f:", "net-pause"); return false; }
  e->has_pending = false;
  if (r != n) { done (e, CURLE_WRITE_ERROR); return false; }
  return true;
}
static void step (Easy *e)
{
  if (e->st == 4 || e->paused) return;
  if (shm->vtime < e->ready) return;
  Server &s = *e->s;
  idle_calls = 0;
  if (e->st == 0)
  {
    if (s.refuse) { s.saw_fault = true; fault ("net-refused"); done (e, CURLE_COULDNT_CONNECT); return; }
    s.requests++; s.last_range = e->range;
    { NetReq q; q.url = e->url; q.range = e->range; q.ua = e->ua; q.userpwd = e->userpwd; q.auth = e->auth; q.verify_peer = e->verify_peer; q.verify_host = e->verify_host; q.hop = e->hop; for (struct curl_slist *h = e->headers; h; h = h->next) q.headers.push_back (h->data); reqs->push_back (q); }
    log ("net: request %s range '%s'", e->url.c_str (), e->range.c_str ());
    e->st = 1; start_response (e);
    e->ready = shm->vtime + s.delay_ms * 1000000ull;
    if (s.delay_ms) { count ("f:", "net-delay"); return; }
  }
  if (e->st == 1)
  {
    if (!deliver_headers (e)) return;
    if (e->hop < s.redirects && e->follow) { e->hop++; e->st = 0; e->ready = shm->vtime + s.delay_ms * 1000000ull; count ("f:", "net-redirect"); if (e->ready > shm->vtime) return; step (e); return; }
    if (e->code >= 400) { s.saw_fault = true; fault ("net-http-error"); if (e->failonerror) { done (e, CURLE_HTTP_RETURNED_ERROR); return; } }
    e->st = 2;
  }
  if (e->st == 2)
  {
    int n = 0;
    while (1)
    {
      if (!e->has_pending)
      {
        if (s.reset_at >= 0 && (int64_t)(e->off - e->from) >= s.reset_at && e->off < e->to)
        { s.saw_fault = true; fault ("net-reset"); done (e, s.seed & 1 ? CURLE_RECV_ERROR : CURLE_PARTIAL_FILE); return; }
        if (e->off >= e->to) break;
        uint32_t c = s.chunk_max;
        if (s.chunk_style == 1) c = std::min (c, s.unit);
        else if (s.chunk_style == 2) c = 1 + e->rng.below (std::min (c, s.unit ? s.unit : c));
        c = std::min<uint64_t> (c, e->to - e->off);
        if (s.reset_at >= 0) c = std::min<int64_t> (c, s.reset_at - (int64_t)(e->off - e->from));
        if ((int64_t)e->off < s.hole) { c = std::min<int64_t> (c, s.hole - e->off); e->pending = Str (c, 0); } else e->pending = s.body.substr (e->off - s.hole, c); e->has_pending = true; e->off += c;
      }
      if (!give (e)) return;
      n++;
      if (s.per_perform && n >= s.per_perform && e->off < e->to) { e->ready = shm->vtime + s.delay_ms * 1000000ull; return; }
    }
    e->st = 3;
  }
  if (e->st == 3)
  {
    e->hl.clear (); e->hi = 0;
    if (s.trailer_range) { e->hl.push_back (s.lower_case ? "content-range: bytes 1234-5678/99999\r\n" : "Content-Range: bytes 1234-5678/99999\r\n"); count ("f:", "net-trailer"); }
    if (!deliver_headers (e)) return;
    done (e, CURLE_OK);
  }
}
static void begin (Easy *e)
{
  auto i = servers->find (e->url);
  if (i == servers->end ()) { (*servers)[e->url].refuse = true; i = servers->find (e->url); }
  e->s = &i->second; e->st = 0; e->hop = 0; e->off = 0; e->paused = false; e->has_pending = false; e->code = 0;
  e->rng = Rng (e->s->seed); e->ready = shm->vtime + e->s->delay_ms * 1000000ull;
}
} // namespace sim
using namespace sim;

extern "C" {
CURLcode curl_global_init (long) { return CURLE_OK; }
void curl_global_cleanup (void) {}
char *curl_version (void) { return (char *)"libcurl/sim"; }
const char *curl_easy_strerror (CURLcode c) { static char b[40]; snprintf (b, sizeof b, "simulated error %d", (int)c); return b; }
const char *curl_multi_strerror (CURLMcode) { return "simulated multi error"; }
CURL *curl_easy_init (void) { if (no_memory ()) return NULL; Easy *e = new Easy; easies->insert (e); return e; }
CURL *curl_easy_duphandle (CURL *h) { Easy *o = E (h); if (no_memory ()) return NULL; Easy *e = new Easy (*o); e->m = 0; easies->insert (e); return e; }
void curl_easy_reset (CURL *h) { Easy *e = E (h); Multi *m = e->m; *e = Easy (); e->m = m; }
void curl_easy_cleanup (CURL *h)
{
  if (!h) return;
  Easy *e = E (h);
  if (e->m) { auto &v = e->m->e; v.erase (std::remove (v.begin (), v.end (), e), v.end ()); }
  easies->erase (e); delete e;
}
CURLcode curl_easy_setopt (CURL *h, CURLoption o, ...)
{
  Easy *e = E (h);
  va_list ap; va_start (ap, o);
  setopt_calls++;
  switch (o)
  {
  case CURLOPT_URL: { const char *s = va_arg (ap, const char *); e->url = ""; if (s && no_memory ()) { va_end (ap); return CURLE_OUT_OF_MEMORY; } e->url = s ? s : ""; break; }
  case CURLOPT_RANGE: { const char *s = va_arg (ap, const char *); e->range = ""; if (s && no_memory ()) { va_end (ap); return CURLE_OUT_OF_MEMORY; } e->range = s ? s : ""; break; }
  case CURLOPT_USERAGENT: { const char *s = va_arg (ap, const char *); e->ua = ""; if (s && no_memory ()) { va_end (ap); return CURLE_OUT_OF_MEMORY; } e->ua = s ? s : ""; break; }
  case CURLOPT_USERPWD: { const char *s = va_arg (ap, const char *); e->userpwd = ""; if (s && no_memory ()) { va_end (ap); return CURLE_OUT_OF_MEMORY; } e->userpwd = s ? s : ""; break; }
  case CURLOPT_WRITEFUNCTION: e->wfn = va_arg (ap, cbfn); break;
  case CURLOPT_WRITEDATA: e->wdata = va_arg (ap, void *); break;
  case CURLOPT_HEADERFUNCTION: e->hfn = va_arg (ap, cbfn); break;
  case CURLOPT_HEADERDATA: e->hdata = va_arg (ap, void *); break;
  case CURLOPT_FAILONERROR: e->failonerror = va_arg (ap, long); break;
  case CURLOPT_FOLLOWLOCATION: e->follow = va_arg (ap, long); break;
  case CURLOPT_HTTPHEADER: e->headers = va_arg (ap, struct curl_slist *); break;
  case CURLOPT_HTTPAUTH: e->auth = va_arg (ap, long); break;
  case CURLOPT_SSL_VERIFYPEER: e->verify_peer = va_arg (ap, long); break;
  case CURLOPT_SSL_VERIFYHOST: e->verify_host = va_arg (ap, long); break;
  default: break;
  }
  va_end (ap);
  return CURLE_OK;
}
CURLcode curl_easy_getinfo (CURL *h, CURLINFO i, ...)
{
  Easy *e = E (h);
  va_list ap; va_start (ap, i);
  void *p = va_arg (ap, void *);
  va_end (ap);
  if (i == CURLINFO_RESPONSE_CODE) *(long *)p = e->code;
  else if (((int)i & CURLINFO_TYPEMASK) == CURLINFO_STRING) *(const char **)p = e->url.c_str ();
  else if (((int)i & CURLINFO_TYPEMASK) == CURLINFO_LONG) *(long *)p = 0;
  else if (((int)i & CURLINFO_TYPEMASK) == CURLINFO_DOUBLE) *(double *)p = 0;
  else if (((int)i & CURLINFO_TYPEMASK) == CURLINFO_OFF_T) *(curl_off_t *)p = i == CURLINFO_SIZE_DOWNLOAD_T ? (curl_off_t)(e->off - e->from) : i == CURLINFO_CONTENT_LENGTH_DOWNLOAD_T ? (curl_off_t)(e->to - e->from) : 0;
  return CURLE_OK;
}
CURLcode curl_easy_pause (CURL *h, int mask)
{
  Easy *e = E (h);
  if (mask == CURLPAUSE_CONT && e->paused)
  {
    e->paused = false;
    if (e->has_pending && e->s && e->s->unpause_immediate)
    {
      count ("p:", "net-unpause-immediate");
      give (e); // may pause again
    }
    e->ready = std::min (e->ready, shm->vtime);
  }
  return CURLE_OK;
}
CURLM *curl_multi_init (void) { if (no_memory ()) return NULL; Multi *m = new Multi; multis->insert (m); return m; }
CURLMcode curl_multi_add_handle (CURLM *h, CURL *c) { Multi *m = M (h); Easy *e = E (c); if (no_memory ()) return CURLM_OUT_OF_MEMORY; m->e.push_back (e); e->m = m; return CURLM_OK; }
CURLMcode curl_multi_remove_handle (CURLM *h, CURL *c)
{
  Multi *m = M (h); Easy *e = E (c);
  m->e.erase (std::remove (m->e.begin (), m->e.end (), e), m->e.end ()); e->m = 0;
  return CURLM_OK;
}
CURLMcode curl_multi_cleanup (CURLM *h) { Multi *m = M (h); for (auto e : m->e) e->m = 0; multis->erase (m); delete m; return CURLM_OK; }
CURLMcode curl_multi_perform (CURLM *h, int *running)
{
  Multi *m = M (h);
  int n = 0;
  if (nf_at >= 0 && no_memory ()) return CURLM_OUT_OF_MEMORY;
  if (++idle_calls > 20000) violate ("hang:net", "the transfer makes no progress although the network has nothing outstanding");
  for (auto e : std::vector<Easy *> (m->e)) { if (!e->s) begin (e); step (e); if (e->st != 4) n++; }
  if (running) *running = n;
  return CURLM_OK;
}
CURLMsg *curl_multi_info_read (CURLM *h, int *left)
{
  Multi *m = M (h);
  for (auto e : m->e) if (e->msg_pending)
  {
    e->msg_pending = false; m->msg.msg = CURLMSG_DONE; m->msg.easy_handle = e; m->msg.data.result = e->result;
    if (left) *left = 0;
    return &m->msg;
  }
  if (left) *left = 0;
  return NULL;
}
static uint64_t next_ready (Multi *m)
{
  uint64_t t = UINT64_MAX;
  for (auto e : m->e) if (e->s && e->st != 4 && !e->paused) t = std::min (t, std::max (e->ready, shm->vtime));
  return t;
}
CURLMcode curl_multi_timeout (CURLM *h, long *ms)
{
  Multi *m = M (h);
  uint64_t t = next_ready (m);
  *ms = t == UINT64_MAX ? -1 : (long)((t - shm->vtime + 999999) / 1000000);
  if (m->e.size () && m->e[0]->s == 0) *ms = 0;
  return CURLM_OK;
}
CURLMcode curl_multi_fdset (CURLM *h, fd_set *r, fd_set *, fd_set *, int *maxfd)
{
  Multi *m = M (h);
  *maxfd = -1;
  for (auto e : m->e) if (e->s && e->st != 4 && !e->s->nofd && !e->paused) { FD_SET (7, r); *maxfd = 7; }
  return CURLM_OK;
}
int sim_select (int, fd_set *, fd_set *, fd_set *, struct timeval *tv)
{
  static uint64_t calls = 0;
  uint64_t lim = tv ? tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull : 60000000000ull;
  uint64_t t = UINT64_MAX;
  uint32_t ei = 0; bool timer = false;
  for (auto m : *multis) { t = std::min (t, next_ready (m)); for (auto e : m->e) { if (e->s && e->s->eintr) ei = e->s->eintr; if (e->s && e->st != 4 && !e->paused && e->s->timer) timer = true; } }
  calls++;
  if (ei && calls % ei == 0) { count ("f:", "select-eintr"); uint64_t w = std::min (lim, t == UINT64_MAX || t < shm->vtime ? lim : t - shm->vtime); shm->vtime += 1000000 + w / 3; errno = EINTR; return -1; }
  if (timer) { count ("f:", "progress-by-timer-only"); shm->vtime += std::max<uint64_t> (lim, 1000); if (++idle_calls > 20000) violate ("hang:net", "waiting without progress"); return 0; }
  if (t != UINT64_MAX && t <= shm->vtime + lim) { shm->vtime = std::max (shm->vtime, t); return 1; }
  shm->vtime += lim;
  if (++idle_calls > 20000) violate ("hang:net", "waiting without progress");
  return 0;
}
CURLMcode curl_multi_wait (CURLM *h, struct curl_waitfd *, unsigned, int ms, int *n)
{
  struct timeval tv = { ms / 1000, (ms % 1000) * 1000 }; (void)h;
  int r = sim_select (0, 0, 0, 0, &tv); if (n) *n = r > 0 ? r : 0;
  return CURLM_OK;
}
CURLMcode curl_multi_poll (CURLM *h, struct curl_waitfd *w, unsigned u, int ms, int *n) { return curl_multi_wait (h, w, u, ms, n); }
struct curl_slist *curl_slist_append (struct curl_slist *l, const char *s)
{
  if (no_memory ()) return NULL;
  struct curl_slist *n = (struct curl_slist *)malloc (sizeof *n), *p = l;
  n->data = strdup (s); n->next = 0; nslist++;
  if (!l) return n;
  while (p->next) p = p->next;
  p->next = n;
  return l;
}
void curl_slist_free_all (struct curl_slist *l) { while (l) { struct curl_slist *n = l->next; free (l->data); free (l); nslist--; l = n; } }
CURLMcode curl_multi_setopt (CURLM *, CURLMoption, ...) { return CURLM_OK; }
CURLcode curl_easy_perform (CURL *h) { CURLM *m = curl_multi_init (); curl_multi_add_handle (m, h); int run = 1; while (run) { curl_multi_perform (m, &run); if (run) { struct timeval tv = { 1, 0 }; sim_select (0, 0, 0, 0, &tv); } } CURLcode r = ((Easy *)h)->result; curl_multi_remove_handle (m, h); curl_multi_cleanup (m); return r; }
}
