// C20: results depend on the input only, not on clock, zone or tuning
#include "ops.h"

static const int64_t S = 1000000000LL;
// what the host and the caller's tuning may be
struct Host { int64_t clock = 1700000000; int tz = 0; uint64_t seed = 0; int64_t jump = 0; size_t pre = 0; int fill = -1; bool move = false, own = false, env = false; };
static Host some_host ()
{
  Host h; static const int64_t C[] = { 0, 1, -1, 86399, 1483228799, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, -2208988800LL, 253402300799LL, 253402300800LL, -86401 };
  h.clock = choose (3) ? range (0, 2000000000) * (int64_t)(1 + choose (3)) : C[choose (13)]; static const int Z[] = { 0, 3600, -3600, 43200, -39600, 50400, 20700, -12600 }; h.tz = Z[choose (8)];
  if (choose (2)) { h.seed = 1 + choose (1000000); static const int64_t J[] = { 1, 60, 86400, 40000000, 2000000000 }; h.jump = J[choose (5)]; }
  static const size_t P[] = { 0, 1, 7, 100, 4096, 65536, 1048576, 16777216 }; h.pre = P[choose (8)]; static const int F[] = { -1, 0, 0xff, 0xa5, 0x7f }; h.fill = F[choose (5)]; h.move = choose (3) == 2; h.own = choose (3) == 2; h.env = choose (4) == 3; return h;
}
static Str tell (const Host &h) { return fmt ("clock %lld%s, zone %d, blocks of %zu, filled with %d%s%s", (long long)h.clock, h.jump ? fmt (" jumping by up to %lld", (long long)h.jump).c_str () : "", h.tz, h.pre, h.fill, h.move ? ", moving" : "", h.own ? ", the caller's" : ""); }
static void apply (const Host &h, bool jumps = true)
{
  clock_base = h.clock; tz_offset = h.tz; if (jumps && h.jump) { clock_jump_plan (h.seed, h.jump); fault ("clock-jumps"); } if (h.clock != 1700000000) fault ("clock-skew"); if (h.tz) fault ("zone");
  libmseed_prealloc_block_size = h.pre; alloc_fill (h.fill); alloc_move (h.move); if (h.own) install_allocator (); if (h.env) { set_env ("LIBMSEED_SSL_NOVERIFY", "1"); set_env ("TZ", "America/New_York"); set_env ("LC_ALL", "de_DE"); }
}
static Str yearday (int64_t t) { time_t x = t; struct tm b; gmtime_r (&x, &b); return fmt ("%04d,%03d", b.tm_year + 1900, b.tm_yday + 1); }
// a SYNC listing without its date; the dates found
static Str undated (const Str &t, std::set<Str> &dates)
{
  Str o; size_t i = 0; bool header = true; while (i < t.size ()) { size_t e = t.find ('\n', i); if (e == Str::npos) e = t.size (); Str l = t.substr (i, e - i); i = e + 1; size_t bar = l.rfind ('|'); if (bar != Str::npos && (header || std::count (l.begin (), l.end (), '|') >= 10)) { dates.insert (l.substr (bar + 1)); l.resize (bar + 1); header = false; } o += l + "\n"; } return o;
}
// the same workload in two processes on two hosts
SCENARIO (C20, workload)
{
  capture_nul = true; quiet_logs (); capture_logs (); libmseed_sim_maxreclen = 1 << 20; nontrivial (); Host a = some_host (), b = some_host (); int serial = 0, n = 1 + choose (4); std::vector<Op> ops; for (int i = 0; i < n; i++) ops.push_back (some_op (choose (4) == 3, serial, choose (4) ? -1 : (int)choose (4))); log ("%s against %s", tell (a).c_str (), tell (b).c_str ());
  auto run = [&] (const Host &h) { return isolated ([&] { apply (h); Ctx c; Str o; for (auto &f : ops) o += f (c) + "\n=====\n"; if (c.m) msr3_free (&c.m); if (c.l) mstl3_free (&c.l, 1); return o + LogCapture::diag; }); };
  Str x = run (a), y = run (b); hashs (x); log ("%zu bytes", x.size ()); NEED (x == y, "host:differs", "%s and %s: %s", tell (a).c_str (), tell (b).c_str (), where (x, y).c_str ());
}
// buffers allocated ahead of need: trimmed to what is used at any moment, converted and added to afterwards
SCENARIO (C20, trim)
{
  sim_setup (0); nontrivial (); Host a = some_host (), b; if (!a.pre) a.pre = 3000; bool split = choose (2); std::vector<RefRec> recs; Tol tol; if (choose (4) == 3) { GenOpt g; g.sidpool = 4; g.zero = true; g.text = choose (2); for (int i = 1 + choose (6); i > 0; i--) recs.push_back (gen_record (g)); } else { Want w; std::map<Str, int> mv; build_case (recs, w, mv, tol, split, 1 + choose (3), 2 + choose (8)); } size_t mx = 0; for (auto &r : recs) mx = std::max (mx, r.raw.size ()); tune_buffer (mx);
  std::vector<size_t> ord = permutation (recs.size ()); std::vector<int> what; for (size_t i = 0; i < recs.size (); i++) what.push_back (choose (8) | (int)choose (4) << 3 | (int)choose (2) << 5); log ("%s, %zu records, split %d", tell (a).c_str (), recs.size (), (int)split);
  auto held = [] (const char *w, const void *p, uint64_t size, int64_t n, char t, bool trimmed) { uint64_t need = n * ms_samplesize (t); NEED (!need || p, "trim:none", "%s: no buffer for %lld samples", w, (long long)n); if (!p) return; NEED (size >= need, "trim:size", "%s: a buffer of %llu bytes for %llu bytes of samples", w, (unsigned long long)size, (unsigned long long)need); NEED (alloc_size (p) >= size, "trim:size", "%s: the buffer is said to have %llu bytes and has %zu", w, (unsigned long long)size, alloc_size (p)); if (trimmed && need) NEED (size == need && alloc_size (p) == need, "trim:kept", "%s: %llu bytes (allocated %zu) are kept for %llu bytes of samples", w, (unsigned long long)size, alloc_size (p), (unsigned long long)need); };
  auto run = [&] (const Host &h, bool trim) { return isolated ([&] {
    apply (h); MS3TraceList *l = mstl3_init (NULL); MS3Record *m = NULL; Str o;
    auto lists = [&] (const char *w, bool trimmed) { for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) held (w, g->datasamples, g->datasize, g->numsamples, g->sampletype, trimmed); };
    for (size_t i : ord)
    {
      const RefRec &r = recs[i]; int w = what[i]; if (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0)) continue; held ("a record", m->datasamples, m->datasize, m->numsamples, m->sampletype, false);
      if (w & 1 && trim) { NEED (msr3_resize_buffer (m) == 0, "trim:fails", "msr3_resize_buffer fails"); held ("a record resized", m->datasamples, m->datasize, m->numsamples, m->sampletype, true); }
      o += gotstr (capture (m, 0)) + (mstl3_addmsr (l, m, split, 1, MSF_MAINTAINMSTL, tol.get ()) ? "+\n" : "-\n"); lists ("a segment", false);
      if (w & 2 && trim) { NEED (mstl3_resize_buffers (l) == 0, "trim:fails", "mstl3_resize_buffers fails"); lists ("a segment resized", true); }
      if (w & 4 && (w >> 3) == 3) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) o += fmt ("%d ", mstl3_convertsamples (g, w & 32 ? 'd' : 'i', 1));
      lists ("a segment", false); o += fullinfo (l) + "\n";
    }
    if (trim) { NEED (mstl3_resize_buffers (l) == 0, "trim:fails", "mstl3_resize_buffers fails"); lists ("a segment resized", true); } o += fullinfo (l); mstl3_free (&l, 0); msr3_free (&m); return o; }); };
  Str x = run (a, true), y = run (b, false); hashs (x); NEED (x == y, "host:trim", "%s: %s", tell (a).c_str (), where (x, y).c_str ());
}
// files of control: the same table and selections on every host; only the warning that a file has expired depends on the clock
SCENARIO (C20, control)
{
  quiet_logs (); capture_logs (); nontrivial (); Host a = some_host (), b = some_host (); Str f, want; int64_t at = 2272060800LL + choose (1000000000); int64_t expires = 0; bool has = false;
  for (int i = choose (8); i > 0; i--) if (choose (4) == 3) { expires = 2208988800LL + choose (2000000000) * (int64_t)(1 + choose (3)); if (choose (2)) expires = 2208988800LL + (choose (2) ? a.clock : b.clock) + (int64_t)choose (3) - 1; if (expires < 0) expires = 0; has = true; f += fmt ("#@ %lld\n", (long long)expires); } else { at += choose (100000000); f += fmt ("%lld %d\n", (long long)at, 10 + i); want += fmt ("%lld:%d,", (long long)((at - 2208988800LL) * S), 10 + i); }
  make_source (SRC_FILE, f, "leap"); int64_t t = range (0, 2000000000) * S; double rate = choose (2) ? 100 : -3;
  auto run = [&] (const Host &h) { return isolated ([&] { apply (h); LogCapture::reset (); int rc = ms_readleapsecondfile ("leap"); Str o = fmt ("%d ", rc); for (LeapSecond *l = leapsecondlist; l; l = l->next) o += fmt ("%lld:%d,", (long long)l->leapsecond, l->TAIdelta); o += fmt (" %lld", (long long)ms_sampletime (t, 1000000, rate)); return o + (h.jump || (has && f.find ("#@") != f.rfind ("#@")) ? "" : LogCapture::diag.find ("expired") != Str::npos ? " expired" : " valid"); }); };
  Str x = run (a), y = run (b); size_t s1 = x.find (" expired"), s2 = x.find (" valid"), s3 = y.find (" expired"), s4 = y.find (" valid"); Str xx = x.substr (0, std::min (s1, s2)), yy = y.substr (0, std::min (s3, s4)); log ("%s", xx.c_str ());
  NEED (xx == yy, "host:leap", "%s: '%s'; %s: '%s'", tell (a).c_str (), xx.c_str (), tell (b).c_str (), yy.c_str ()); NEED (xx.find (want) != Str::npos, "host:leap", "the table is '%s', not '%s'", xx.c_str (), want.c_str ());
  auto exp = [&] (const Host &h, size_t e, size_t v) { if (e == Str::npos && v == Str::npos) return; bool w = has && h.clock > expires - 2208988800LL; NEED ((e != Str::npos) == w, "host:expired", "a file that expires at %lld is reported as %s at %lld", (long long)expires - 2208988800LL, w ? "valid" : "expired", (long long)h.clock); };
  exp (a, s1, s2); exp (b, s3, s4);
}
// latency is host time less the time of the last sample; a SYNC listing carries one local date
SCENARIO (C20, clock)
{
  capture_nul = true; sim_setup (); capture_logs (); nontrivial (); Host h = some_host (); GenOpt g; g.sidpool = 8; std::vector<RefRec> v; for (int i = 1 + choose (5); i > 0; i--) v.push_back (gen_record (g)); MS3Record *m = NULL; MS3TraceList *l = mstl3_init (NULL); clock_base = h.clock; tz_offset = h.tz; fault ("clock-skew"); log ("clock %lld zone %d", (long long)h.clock, h.tz);
  for (auto &r : v)
  {
    if (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_ATENDOFFILE, 0)) continue; double want = ((double)h.clock - (double)(m->samplecnt > 1 ? msr3_endtime (m) : m->starttime) / 1e9), got = msr3_host_latency (m);
    // whole seconds of the host and doubles of seconds, a sample period in double
    double span = m->samplecnt > 1 ? fabs ((double)(msr3_endtime (m) - m->starttime) / 1e9) : 0, tol = 1e-5 + span * 1e-7 + fabs (want) * 1e-12; bool leap = false; for (LeapSecond *q = leapsecondlist; q; q = q->next) if (q->leapsecond > m->starttime - 2 * S && q->leapsecond <= m->starttime + (int64_t)(span * 1e9) + 2 * S) leap = true; if (leap) tol += 1.1;
    NEED (fabs (want - got) <= tol, "host:latency", "latency of a record of %lld samples at rate %.10g is %.6f instead of %.6f", (long long)m->samplecnt, m->samprate, got, want); mstl3_addmsr (l, m, 0, 1, 0, NULL);
  }
  if (h.jump) { clock_jump_plan (h.seed, h.jump); fault ("clock-jumps"); }
  LogCapture::reset (); mstl3_printsynclist (l, choose (2) ? "XX" : NULL, (ms_subseconds_t)choose (4)); std::set<Str> dates; Str u = undated (LogCapture::out, dates); NEED (dates.size () == 1, "host:date", "a SYNC listing carries %zu dates", dates.size ());
  if (!h.jump) NEED (*dates.begin () == yearday (h.clock + h.tz), "host:date", "a SYNC listing carries the date %s instead of %s", dates.begin ()->c_str (), yearday (h.clock + h.tz).c_str ()); mstl3_free (&l, 1); msr3_free (&m);
}
// the program on two hosts
SCENARIO (C20, program)
{
  sim_setup (0); nontrivial (); Host a = some_host (), b = some_host (); std::vector<Str> o; bool sync = false, offsets = false, lat = choose (4) == 3; static const char *L[] = { "-p", "-pp", "-ppp", "-d", "-D", "-O", "-z", "-snd", "-v", "-T", "-tg", "-g", "-G", "-S", "-t", "-s", "-tt", "-rt", "-P", "-Q", "-tf", "-m", "-ts" };
  for (int i = choose (5); i > 0; i--) { Str x = L[choose (lat ? 9 : 23)]; o.push_back (x); if (x == "-S") sync = true; if (x == "-O") offsets = true; if (x == "-tt" || x == "-rt") o.push_back (choose (2) ? "0.5" : "1"); if (x == "-m") o.push_back ("B"); if (x == "-tf") o.push_back (fmt ("%u", choose (4))); if (x == "-ts") o.push_back (fmt ("20%02d-01-01", 17 + choose (10))); }
  bool copy = choose (2); if (copy) { o.push_back ("-o"); o.push_back ("copy"); } if (choose (3) == 2) { o.push_back ("-b"); o.push_back ("bin"); } size_t need = 64, total = 0; std::vector<RefRec> recs;
  for (int i = 1 + choose (2); i > 0; i--) { size_t mx; Stream s = mixed_stream (5, false, false, &mx); need = std::max (need, mx); total += s.bytes.size (); recs.insert (recs.end (), s.recs.begin (), s.recs.end ()); o.push_back (make_source (choose (3) == 2 ? SRC_URL : SRC_FILE, s.bytes, fmt ("in%d", i)).path); }
  tune_buffer (need); step_limit (100000000ull + 40000ull * total); struct Out { Str out, rest; int st; }; Str cl; for (auto &x : o) cl += " " + x; log ("msi%s: %s against %s", cl.c_str (), tell (a).c_str (), tell (b).c_str ());
  auto run = [&] (const Host &h, bool latency) { Str r = isolated ([&] { clear_env (); apply (h, !latency); auto v = o; if (latency) v.insert (v.begin (), "-L"); MsiResult m = run_msi (v); Str w = m.err + "\n====\n" + (has_file ("copy") ? file ("copy").data : "") + "\n====\n" + (has_file ("bin") ? file ("bin").data : ""); return fmt ("%d %zu ", m.status, m.out.size ()) + m.out + w; }); Out x; size_t n; int k = 0; if (sscanf (r.c_str (), "%d %zu%n", &x.st, &n, &k) != 2) harness_error ("no result"); x.out = r.substr (k + 1, n); x.rest = r.substr (k + 1 + n); return x; };
  Out x = run (a, false), y = run (b, false); std::set<Str> da, db; if (sync) { x.out = undated (x.out, da); y.out = undated (y.out, db); } hashs (x.out);
  NEED (x.st == y.st, "host:status", "msi%s ends with %d on %s, %d on %s", cl.c_str (), x.st, tell (a).c_str (), y.st, tell (b).c_str ()); NEED (x.out == y.out, "host:listing", "msi%s: %s", cl.c_str (), where (x.out, y.out).c_str ()); NEED (x.rest == y.rest, "host:output", "msi%s: %s", cl.c_str (), where (x.rest, y.rest).c_str ());
  if (!lat) return;
  // with latencies the listing is the same but for the latencies, and they are those of the records listed
  Out z = run (a, true); Str bare; std::vector<double> vals; size_t i = 0;
  while (i < z.out.size ()) { size_t e = z.out.find ('\n', i); if (e == Str::npos) e = z.out.size () - 1; Str l = z.out.substr (i, e + 1 - i); i = e + 1; for (size_t c = offsets ? 10 : 0; c < l.size (); c += offsets ? 10 : 0) { size_t s = l.find (" secs ", c); if (s != Str::npos && s >= c + 10 && s <= c + 14 && strchr ("-0123456789", l[c]) && l.find_first_not_of ("-+.e0123456789 ", c) > s) { vals.push_back (atof (l.c_str () + c)); l.erase (c, s + 6 - c); } else break; } bare += l; }
  NEED (z.st == x.st, "host:status", "msi -L%s ends with %d instead of %d", cl.c_str (), z.st, x.st); NEED (bare == x.out, "host:listing", "msi -L%s lists records otherwise: %s", cl.c_str (), where (bare, x.out).c_str ());
  size_t k = 0; for (double q : vals) { bool hit = false; for (; k < recs.size () && !hit; k++) { const RefRec &r = recs[k]; double w = (double)a.clock - (double)(r.nsamp () > 1 ? r.end () : r.start) / 1e9; double tol = 1e-4 + fabs (w) * 2e-5; hit = q >= w - tol && q <= w + tol + vtime_ns () / 1e9; if (!hit) log ("%s %lld samples at %g: %g", r.sid.c_str (), (long long)r.nsamp (), r.rate, w); } NEED (hit, "host:latency", "msi -L%s lists a latency of %g that no record has", cl.c_str (), q); }
}
