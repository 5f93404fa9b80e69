// C22: requests to servers are the ones asked for and carry what was configured
#include "scn.h"
using namespace sim;

struct Cfg { std::vector<Str> hdr; Str cred; bool has_cred = false, cred_unsure = false, noverify = false; };
struct Host { Str url; Stream s; int redirects = 0; };
static Host some_host (int k)
{
  static const char *U[] = { "http://one.example/data", "https://two.example/a/b?net=XX&sta=A", "http://user@three.example:8080/x.mseed" };
  Host h; h.url = U[k]; size_t mx; h.s = mixed_stream (5, false, false, &mx); tune_buffer (std::max<size_t> (mx, 65536));
  Server &v = server (h.url); v.body = h.s.bytes; random_schedule (v); v.redirects = choose (3) == 2 ? 1 + choose (2) : 0; h.redirects = v.redirects;
  return h;
}
static Str some_header ()
{
  static const char *N[] = { "X-Trace", "Accept", "Authorization", "X-Empty", "Cookie" }; Str o = N[choose (5)]; o += ":";
  switch (choose (5)) { case 0: break; case 1: o += " value"; break; case 2: o += " a b: c, \"d\""; break; case 3: o += Str (choose (1500), 'h'); break; default: o += fmt (" v%u", choose (1000)); }
  return o;
}
static Str agent (const Str &prog, const Str &ver) { return "User-Agent: " + prog + (ver.empty () ? Str () : "/" + ver) + " libmseed/" LIBMSEED_VERSION " libcurl/"; }
static bool same_header (const Str &want, const Str &got)
{
  if (want.compare (0, 12, "User-Agent: ")) return want == got;
  return got.compare (0, want.size (), want) == 0; // (followed by the version of libcurl)
}
// requests [from, ...) are those for one opening; a failure may have cut them short
static void check_requests (size_t from, const Host &h, int64_t a, int64_t b, const Cfg &c, bool cut, const char *what)
{
  auto &q = net_requests (); size_t n = q.size () - from;
  if (!cut) NEED (n == (size_t)h.redirects + 1, "request:count", "%s: %zu requests for %s with %d redirects", what, n, h.url.c_str (), h.redirects);
  else NEED (n <= (size_t)h.redirects + 1, "request:count", "%s: %zu requests for %s with %d redirects", what, n, h.url.c_str (), h.redirects);
  for (size_t i = from; i < q.size (); i++)
  {
    auto &r = q[i];
    NEED (r.url == h.url, "request:url", "%s: %s is requested, asked for %s", what, r.url.c_str (), h.url.c_str ());
    long long x = -1, y = -1; size_t d = r.range.find ('-'); if (!r.range.empty ()) { NEED (d != Str::npos && d > 0, "request:range", "%s: range '%s'", what, r.range.c_str ()); x = atoll (r.range.c_str ()); if (d + 1 < r.range.size ()) y = atoll (r.range.c_str () + d + 1); }
    if (a <= 0 && b <= 0) NEED (r.range.empty () || (x == 0 && y < 0), "request:range", "%s: range '%s' is requested, none was asked for", what, r.range.c_str ());
    else NEED (x == std::max<int64_t> (a, 0) && (b > 0 ? y == b : y < 0), "request:range", "%s: range '%s' is requested, asked for %lld to %lld", what, r.range.c_str (), (long long)a, (long long)b);
    NEED (r.headers.size () == c.hdr.size (), "request:headers", "%s: %zu headers are sent, %zu configured", what, r.headers.size (), c.hdr.size ());
    for (size_t k = 0; k < c.hdr.size (); k++) NEED (same_header (c.hdr[k], r.headers[k]), "request:headers", "%s: header '%s' is sent instead of '%s'", what, r.headers[k].substr (0, 100).c_str (), c.hdr[k].substr (0, 100).c_str ());
    bool own = false; for (auto &t : c.hdr) if (t.compare (0, 12, "User-Agent: ") == 0) own = true;
    if (!own) NEED (r.ua.compare (0, strlen ("libmseed/" LIBMSEED_VERSION), "libmseed/" LIBMSEED_VERSION) == 0, "request:agent", "%s: user agent '%s'", what, r.ua.c_str ());
    Str cred = c.has_cred ? c.cred : Str ();
    NEED (r.userpwd == cred || (c.cred_unsure && r.userpwd.empty ()), "request:credentials", "%s: credentials '%s' are sent, configured '%s'", what, r.userpwd.c_str (), cred.c_str ());
    if (!r.userpwd.empty ()) NEED (r.auth != 0, "request:credentials", "%s: no way of authentication is allowed", what);
    NEED (r.verify_peer == !c.noverify && r.verify_host == !c.noverify, "request:verification", "%s: certificates are%s verified", what, r.verify_peer && r.verify_host ? "" : " not");
  }
}
static Cfg start ()
{
  Cfg c; c.noverify = choose (4) == 3; if (c.noverify) set_env ("LIBMSEED_SSL_NOVERIFY", "1"); if (choose (6) == 5) set_env ("LIBMSEED_URL_DEBUG", "1");
  return c;
}
static void maybe_no_memory (int kinds) { if (choose (4) == 3) net_fail_at (choose (kinds), choose (3) ? 1 : 1000000); else net_fail_at (1LL << 60); }

struct Reader { int h; MS3FileParam *fp = NULL; MS3Record *m = NULL; size_t next, end; bool hurt = false, over = false; Str path; };

// configuring, opening, reading and closing in any order
SCENARIO (C22, library)
{
  sim_setup (); Cfg c = start (); std::vector<Host> hosts; int nh = 1 + choose (3); for (int i = 0; i < nh; i++) hosts.push_back (some_host (i));
  std::vector<Reader> rd; bool agent_set = false; int n = 3 + choose (12); nontrivial ();
  auto take = [&] (Reader &r, int k) {
    for (; k > 0 && !r.over; k--)
    {
      int rc = ms3_readmsr_r (&r.fp, &r.m, r.path.c_str (), MSF_PNAMERANGE, 0); const Stream &s = hosts[r.h].s;
      if (net_mem_failed ()) r.hurt = true;
      if (rc == MS_NOERROR)
      {
        NEED (r.next < r.end, "request:data", "%s gives a record behind those asked for", r.path.c_str ());
        NEED (Str (r.m->record, r.m->reclen) == s.recs[r.next].raw, "request:data", "%s: another record than number %zu", r.path.c_str (), r.next); r.next++;
      }
      else { r.over = true; if (rc == MS_ENDOFFILE) NEED (r.next == r.end, "request:data", "%s ends after %zu of %zu records%s", r.path.c_str (), r.next, r.end, r.hurt ? " although the transfer failed" : ""); else NEED (r.hurt && rc < 0, "request:data", "%s: %s", r.path.c_str (), codename (rc)); }
    }
  };
  for (int i = 0; i < n; i++)
  {
    size_t before = net_requests ().size (); maybe_no_memory (14); int op = choose (10);
    switch (op)
    {
    case 0: case 1: { Str h = some_header (); int rc = ms3_url_addheader (h.c_str ()); log ("add header %.40s: %d", h.c_str (), rc); NEED ((rc == 0) == !net_mem_failed (), "request:configure", "adding a header returns %d", rc); if (!rc) c.hdr.push_back (h); break; }
    case 2: if (!agent_set) { Str p = choose (2) ? "myprogram" : Str (1 + choose (60), 'p'), v = choose (2) ? "1.2" : ""; int rc = ms3_url_useragent (p.c_str (), v.empty () ? NULL : v.c_str ()); log ("user agent %s: %d", p.c_str (), rc); NEED ((rc == 0) == !net_mem_failed (), "request:configure", "setting the user agent returns %d", rc); if (!rc) { agent_set = true; c.hdr.push_back (agent (p, v)); } } break;
    case 3: { Str p = choose (2) ? "user:secret" : fmt ("u%u:p%u", choose (5), choose (5)); int rc = ms3_url_userpassword (p.c_str ()); log ("credentials %s: %d", p.c_str (), rc); NEED ((rc == 0) == !net_mem_failed (), "request:configure", "setting credentials returns %d", rc); if (!rc) { c.cred = p; c.has_cred = true; c.cred_unsure = false; } else c.cred_unsure = true; break; }
    case 4: ms3_url_freeheaders (); log ("headers freed"); c.hdr.clear (); agent_set = false; break;
    case 5: case 6: case 7:
    {
      Reader r; r.h = choose (nh); const Stream &s = hosts[r.h].s; r.next = 0; r.end = s.recs.size (); int64_t a = -1, b = -1; r.path = hosts[r.h].url;
      if (choose (2)) { r.next = choose (r.end); a = s.offs[r.next]; if (choose (2)) { r.end = r.next + 1 + choose (r.end - r.next); b = (r.end < s.recs.size () ? s.offs[r.end] : (int64_t)s.bytes.size ()) - 1; } r.path += b >= 0 ? fmt ("@%lld-%lld", (long long)a, (long long)b) : fmt ("@%lld", (long long)a); }
      log ("open %s", r.path.c_str ()); take (r, 1); bool failed = net_mem_failed ();
      check_requests (before, hosts[r.h], a, b, c, failed, "opened");
      if (failed && r.over) ms3_readmsr_r (&r.fp, &r.m, NULL, 0, 0); else { take (r, choose (3)); rd.push_back (r); }
      break;
    }
    case 8: if (rd.size ()) { size_t k = choose (rd.size ()); take (rd[k], 1 + choose (4)); log ("read on from %s", rd[k].path.c_str ()); NEED (net_requests ().size () == before, "request:count", "reading on from %s makes another request", rd[k].path.c_str ()); } break;
    default: if (rd.size ()) { size_t k = choose (rd.size ()); ms3_readmsr_r (&rd[k].fp, &rd[k].m, NULL, 0, 0); log ("close %s", rd[k].path.c_str ()); rd.erase (rd.begin () + k); NEED (net_requests ().size () == before, "request:count", "closing makes a request"); } break;
    }
    net_fail_off ();
  }
  net_fail_at (1LL << 60);
  for (auto &r : rd) { if (choose (2)) take (r, 100); ms3_readmsr_r (&r.fp, &r.m, NULL, 0, 0); }
  ms3_url_freeheaders ();
  NEED (open_handles () <= 1 && slists () == 0, "request:left", "%d handles and %d headers are left", open_handles (), slists ());
}

// the program: options before and after the inputs, list files, ranges
SCENARIO (C22, msi)
{
  sim_setup (); Cfg c = start (); std::vector<Host> hosts; int nh = 1 + choose (3); for (int i = 0; i < nh; i++) hosts.push_back (some_host (i));
  std::vector<Str> args; struct In { int h; int64_t a, b; }; std::vector<In> in; Str listed; std::vector<In> inlist; int n = 1 + choose (4), nopt = choose (5); bool list = choose (3) == 2; nontrivial ();
  std::vector<int> order; for (int i = 0; i < n; i++) order.push_back (0); for (int i = 0; i < nopt; i++) order.push_back (1); for (size_t i = order.size (); i > 1; i--) std::swap (order[i - 1], order[choose (i)]);
  int at_list = list ? choose (n) : -1, k = 0;
  auto input = [&] (std::vector<In> &to) { In x; x.h = choose (nh); x.a = x.b = -1; const Stream &s = hosts[x.h].s; Str p = hosts[x.h].url; if (choose (2)) { size_t f = choose (s.recs.size ()); x.a = s.offs[f]; if (choose (2)) { size_t e = f + 1 + choose (s.recs.size () - f); x.b = (e < s.recs.size () ? s.offs[e] : (int64_t)s.bytes.size ()) - 1; } p += x.b >= 0 ? fmt ("@%lld-%lld", (long long)x.a, (long long)x.b) : fmt ("@%lld", (long long)x.a); } to.push_back (x); return p; };
  for (int o : order)
    if (o) { if (choose (3)) { Str h = some_header (); args.push_back ("-H"); args.push_back (h); c.hdr.push_back (h); } else { c.cred = choose (2) ? "user:secret" : fmt ("u%u:x", choose (9)); c.has_cred = true; args.push_back ("-u"); args.push_back (c.cred); } }
    else { if (k++ == at_list) { int m = 1 + choose (3); for (int i = 0; i < m; i++) listed += input (in) + "\n"; file ("urls").data = listed; args.push_back ("@urls"); } else args.push_back (input (in)); }
  args.push_back ("-T"); c.hdr.push_back ("User-Agent: msi/");
  maybe_no_memory (60); MsiResult r = run_msi (args); bool failed = net_mem_failed (); net_fail_off ();
  log ("msi: status %d, %zu requests", r.status, net_requests ().size ());
  NEED ((r.status == 0) == !failed, "request:status", "msi ends with status %d%s", r.status, failed ? " although libcurl ran out of memory" : "");
  auto &q = net_requests (); std::vector<NetReq> all = q; size_t p = 0;
  for (auto &x : in)
  {
    size_t cnt = hosts[x.h].redirects + 1; if (failed && p == all.size ()) break;
    q.assign (all.begin () + p, all.begin () + std::min (all.size (), p + cnt)); check_requests (0, hosts[x.h], x.a, x.b, c, failed, "msi"); p = std::min (all.size (), p + cnt);
  }
  NEED (p == all.size (), "request:count", "msi makes %zu requests, %zu asked for", all.size (), p);
}
