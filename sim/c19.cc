// C19: control files are taken whole or refused
#include "scn.h"
using namespace sim;

static const int64_t S = 1000000000LL, OPEN = NSTUNSET, NTP = 2208988800LL;
static Str sp () { static const char *W[] = { " ", "  ", "\t", " \t  " }; return W[choose (4)]; }
static Str timestr (int64_t t)
{
  int y, d, h, m, s; uint32_t ns; ns2cal (t, y, d, h, m, s, ns);
  if (choose (2)) return ns ? fmt ("%d,%d,%d,%d,%d.%09u", y, d, h, m, s, ns) : fmt ("%d,%03d,%02d,%02d,%02d", y, d, h, m, s);
  static const int ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int mo = 0, q = d; bool leap = y % 4 == 0 && (y % 100 || y % 400 == 0); for (; mo < 12; mo++) { int n = ML[mo] + (mo == 1 && leap); if (q <= n) break; q -= n; }
  return ns ? fmt ("%d-%02d-%02dT%02d:%02d:%02d.%09uZ", y, mo + 1, q, h, m, s, ns) : fmt ("%d-%02d-%02dT%02d:%02d:%02d", y, mo + 1, q, h, m, s);
}
// a text cut into lines, how it is stored and what happens when it is read
struct Control { std::vector<Str> lines; Str text; Str name; bool fault = false, openfail = false, isstdin = false; };
static void store (Control &c, const Str &name, bool faults, bool mayin)
{
  bool crlf = choose (3) == 2; c.name = name; size_t n = 0; for (auto &l : c.lines) { c.text += l + (crlf ? "\r\n" : "\n"); n++; } if (choose (3) == 2 && c.text.size ()) { c.text.pop_back (); if (c.text.size () && c.text.back () == '\r') c.text.pop_back (); }
  if (mayin && choose (4) == 3) c.isstdin = true;
  Source s = make_source (SRC_FILE, c.text, name); File &f = file (name); if (c.isstdin) { f.is_pipe = true; set_stdin (name); }
  if (!faults) return;
  switch (choose (8)) { case 0: case 1: f.rp.fail_at = choose (c.text.size () + 1); f.rp.err = choose (2) ? EIO : EISDIR; f.rp.transient = choose (3) == 2; c.fault = true; break; case 2: if (!c.isstdin) { f.open_errno = choose (2) ? ENOENT : EACCES; c.fault = c.openfail = true; } break; default: break; }
}
static bool failed (const Control &c) { return (c.openfail && !c.isstdin) || file (c.name).read_failed; }

// ---- selections
struct Entry { Str pat, net, sta, loc, chan; int64_t ws = OPEN, we = OPEN; int ver = 0; bool comp = false; };
static Str glob (const Str &x) { if (x.empty ()) return "*"; switch (choose (5)) { case 0: return "*"; case 1: return x.substr (0, x.size () - 1) + "?"; case 2: return x.substr (0, 1) + "*"; default: return x; } }
static Entry some_entry ()
{
  Entry e; RefRec r; Str sid = sid_for (choose (8), &r); e.comp = choose (2); if (e.comp) { e.net = glob (r.net); e.sta = glob (r.sta); e.loc = glob (r.loc); e.chan = choose (2) ? Str ("*") : r.chan.size () == 3 ? r.chan : Str ("B_H_?"); } else { e.pat = choose (3) ? sid : sid.substr (0, sid.size () - choose (sid.size () - 6)) + "*"; }
  if (choose (2)) e.ws = range (1500000000, 1800000000) * S; if (e.ws != OPEN && choose (2)) e.we = e.ws + choose (100000000) * S; if (choose (3) == 2) { e.ver = choose (4) == 3 ? 252 + choose (4) : 1 + choose (4); if (!e.comp && e.we == OPEN) e.ver = 0; } return e;
}
static Str line_of (const Entry &e)
{
  Str l; if (!e.comp) { l = e.pat; if (e.ws != OPEN) l += sp () + timestr (e.ws); if (e.we != OPEN) l += sp () + timestr (e.we); if (e.ver) l += sp () + fmt ("%d", e.ver); }
  else { l = e.net + sp () + e.sta + sp () + e.loc + sp () + e.chan; if (e.ver || e.ws != OPEN || choose (3) == 2) l += sp () + (e.ver ? fmt ("%d", e.ver) : Str (pick (std::vector<const char *>{ "0", "*", "D", "Q", "-", "00" }))); if (e.ws != OPEN) l += sp () + timestr (e.ws); if (e.we != OPEN) l += sp () + timestr (e.we); }
  if (choose (4) == 3) l = sp () + l; if (choose (4) == 3) l += sp (); return l;
}
static const char *BAD[] = { "FDSN:* 2020-13-45T00:00:00", "FDSN:* 2020-01-01 2020-99-01", "XX STA 00 BHZ 1 2020-14-01", "XX STA 00 BHZ 1 2020-01-01 2020-01-41", "FDSN:* 2020-01-01 2020-02-01 256", "XX STA 00 BHZ 999", "FDSN:* 2020-01-01 2020-02-01 1000" };
static const char *ODD[] = { "FDSN:* nonsense", "FDSN:* 2020-01-01 nonsense", "a b c d e f", "a b c d 1 2020-01-01 f", "a b c d 1 2020-01-01 2021-01-01 x", "a b c d e f g h i j k" };
SCENARIO (C19, selections)
{
  sim_setup (); capture_logs (); nontrivial (); Control c; std::vector<Entry> v; int n = choose (8); bool bad = false; int odd = 0; MS3Selections *ref = NULL, *sel = NULL; size_t live0 = live_blocks (); std::vector<Entry> before;
  for (int i = choose (3); i > 0; i--) { Entry e = some_entry (); e.comp = false; if (e.pat.empty ()) continue; before.push_back (e); ms3_addselect (&sel, e.pat.c_str (), e.ws, e.we, e.ver); }
  for (int i = 0; i < n; i++)
    switch (choose (9))
    {
    case 0: c.lines.push_back ("# " + Str (choose (2) ? choose (30) : choose (600), 'x')); break;
    case 1: c.lines.push_back (choose (2) ? "" : sp ()); break;
    case 2: if (choose (2)) { c.lines.push_back (ODD[choose (6)]); odd++; } else if (choose (4) == 3) { c.lines.push_back (choose (4) ? Str (BAD[choose (7)]) : "FDSN:" + Str (194 + choose (400), 'A')); bad = true; } break;
    default: { Entry e = some_entry (); v.push_back (e); c.lines.push_back (line_of (e)); }
    }
  store (c, "select", true, true); bool alloc = choose (6) == 5; if (alloc) { alloc_reset (); alloc_fail_at (logsize (10)); fault ("alloc"); }
  int rc = ms3_readselectionsfile (&sel, c.isstdin ? "-" : c.name.c_str ()); bool nomem = alloc && alloc_failed (); alloc_fail_off (); log ("%zu entries, %d odd, bad %d, fault %d: %d", v.size (), odd, bad, (int)failed (c), rc);
  NEED (open_streams () == 0, "control:open", "the selections file is left open");
  if (bad || failed (c) || nomem) { NEED (rc == -1, "control:partial", "a selections file that %s gives %d", nomem ? "cannot be held in memory" : bad ? "has a bad entry" : "cannot be read", rc); NEED (!LogCapture::diag.empty (), "control:silent", "no message tells about it"); }
  else
  {
    NEED (rc == (int)v.size (), "control:count", "a selections file of %zu entries gives %d: %.200s", v.size (), rc, LogCapture::diag.c_str ()); if (odd) NEED (LogCapture::diag.find ("kipping") != Str::npos, "control:silent", "no warning about %d lines skipped", odd);
    v.insert (v.begin (), before.begin (), before.end ());
    // two ways of telling what a record of one instant meets: through the entries as given to the library and by hand for open windows
    for (auto &e : v) if (e.comp) { NEED (ms3_addselect_comp (&ref, (char *)e.net.c_str (), (char *)e.sta.c_str (), (char *)e.loc.c_str (), (char *)e.chan.c_str (), e.ws, e.we, e.ver) == 0, "control:add", "refused"); } else NEED (ms3_addselect (&ref, e.pat.c_str (), e.ws, e.we, e.ver) == 0, "control:add", "refused");
    for (int k = 0; k < 40; k++)
    {
      Str sid = sid_for (choose (8)); int64_t a = range (1490000000, 1910000000) * S; if (v.size () && choose (2)) { const Entry &e = pick (v); int64_t t = e.ws != OPEN && choose (2) ? e.ws : e.we; if (t != OPEN) a = t + (int64_t)choose (3) - 1; } int64_t b = a + (choose (2) ? 0 : choose (100000) * S); int ver = choose (4) == 3 ? 250 + choose (6) : choose (5); if (v.size () && choose (2)) ver = pick (v).ver;
      bool x = ms3_matchselect (sel, sid.c_str (), a, b, ver, NULL) != NULL, y = ms3_matchselect (ref, sid.c_str (), a, b, ver, NULL) != NULL; NEED (x == y, "control:effect", "%s version %d from %lld to %lld %s by the file, %s by its entries", sid.c_str (), ver, (long long)a, (long long)b, x ? "selected" : "not selected", y ? "selected" : "not selected");
    }
  }
  ms3_freeselections (sel); ms3_freeselections (ref); NEED (live_blocks () == live0, "control:leak", "memory is left: %s", live_desc ().c_str ());
}
// ---- leap seconds
typedef std::vector<std::pair<int64_t, int>> Table;
static Table table () { Table t; for (LeapSecond *l = leapsecondlist; l; l = l->next) { t.push_back ({ l->leapsecond, l->TAIdelta }); NEED (t.size () < 10000, "control:table", "the leap second list has no end"); } return t; }
static int64_t model_time (const Table &t, int64_t start, int64_t n, double rate)
{
  int64_t span = n > 0 ? (int64_t)((rate > 0 ? n / rate * 1e9 : -rate * n * 1e9) + 0.5) : 0; for (auto &e : t) if (e.first > start && e.first <= start + span - S) { span -= S; break; } return start + span;
}
static void check_table (const Table &want, const char *what)
{
  Table t = table (); NEED (t == want, "control:table", "%s: the leap second table has %zu entries, or others, instead of %zu", what, t.size (), want.size ());
  for (int k = 0; k < 6; k++) { int64_t a = range (0, 2000000000) * S; if (want.size () && choose (2)) a = pick (want).first - choose (20) * S / 2; int64_t n = choose (100); double r = choose (2) ? 2 : -1; int64_t x = ms_sampletime (a, n, r), y = model_time (want, a, n, r); NEED (x == y, "control:effect", "%s: sample %lld at %g from %lld is at %lld instead of %lld", what, (long long)n, r, (long long)a, (long long)x, (long long)y); }
}
struct Leap { Control c; Table t; bool malformed = false; int64_t expires = 0; };
static Leap some_leap (const Str &name, bool faults)
{
  Leap l; int n = choose (10); int64_t at = 2272060800LL + choose (1000000000);
  for (int i = 0; i < n; i++)
    switch (choose (8))
    {
    case 0: l.c.lines.push_back ("#" + Str (choose (2) ? choose (30) : choose (700), choose (2) ? '3' : 'x')); break;
    case 1: l.c.lines.push_back (""); break;
    case 2: if (choose (2)) { l.expires = 2208988800LL + 1500000000 + choose (500000000); l.c.lines.push_back (fmt ("#@%s%lld", choose (2) ? "\t" : " ", (long long)l.expires)); } else if (choose (3) == 2) { l.c.lines.push_back (choose (2) ? "nonsense" : "99"); l.malformed = true; } break;
    default: { at += 1 + choose (100000000); int d = 10 + i; l.c.lines.push_back (fmt ("%lld%s%d%s", (long long)at, sp ().c_str (), d, choose (2) ? "   # 1 Jan" : "")); l.t.push_back ({ (at - NTP) * S, d }); }
    }
  store (l.c, name, faults, false); return l;
}
SCENARIO (C19, leapseconds)
{
  sim_setup (); capture_logs (); nontrivial (); Table cur = table (); size_t live0 = live_blocks (); bool own = false; int n = 1 + choose (4); clock_base = 1400000000 + (int64_t)choose (600000000); tz_offset = ((int)choose (25) - 12) * 3600;
  for (int i = 0; i < n; i++)
  {
    Leap l = some_leap (fmt ("leap%d", i), true); bool env = choose (2), alloc = choose (5) == 4; LogCapture::reset (); int rc;
    if (choose (10) == 9) { NEED (ms_readleapseconds ("LEAPS_NOT_SET") == -2, "control:env", "an environment variable that is not set"); check_table (cur, "variable not set"); continue; }
    if (alloc) { alloc_reset (); alloc_fail_at (choose (6)); fault ("alloc"); } if (env) { set_env ("LEAPS", l.c.name); rc = ms_readleapseconds ("LEAPS"); } else rc = ms_readleapsecondfile (l.c.name.c_str ()); bool nomem = alloc && alloc_failed (); alloc_fail_off ();
    bool bad = failed (l.c) || nomem; log ("load %d: %zu entries, fault %d: %d", i, l.t.size (), bad, rc); NEED (open_streams () == 0, "control:open", "the leap second file is left open");
    if (bad) { NEED (rc == -1, "control:partial", "a leap second file that %s gives %d", nomem ? "cannot be held in memory" : "cannot be read", rc); NEED (!LogCapture::diag.empty (), "control:silent", "no message tells about it"); check_table (cur, "after a file that failed"); }
    else { NEED (rc == (int)l.t.size (), "control:count", "a leap second file of %zu entries gives %d", l.t.size (), rc); cur = l.t; own = true; check_table (cur, "after loading"); if (l.malformed) NEED (LogCapture::diag.find ("nrecognized") != Str::npos, "control:silent", "no warning about a malformed line"); if (l.expires) { bool w = LogCapture::diag.find ("expired") != Str::npos; int exps = 0; for (auto &x : l.c.lines) exps += x.compare (0, 2, "#@") == 0; if (exps == 1) NEED (w == (l.expires - NTP < clock_base + (int64_t)(vtime_ns () / 1000000000ull)) || llabs (l.expires - NTP - clock_base) < 100, "control:expired", "the file expires %lld s after the present, a warning is %s", (long long)(l.expires - NTP - clock_base), w ? "given" : "missing"); } }
    NEED (live_blocks () == live0 + (own ? cur.size () : 0), "control:leak", "memory is left: %s", live_desc ().c_str ());
  }
}
// ---- the program's control files
struct Res { int st; Str out, err; };
static Res run (const std::vector<Str> &a, const Str &leap)
{
  Str r = isolated ([&] { clear_env (); if (leap.size ()) set_env ("LIBMSEED_LEAPSECOND_FILE", leap); MsiResult m = run_msi (a); return fmt ("%d %zu ", m.status, m.out.size ()) + m.out + m.err; }); Res x; size_t n; int k = 0; if (sscanf (r.c_str (), "%d %zu%n", &x.st, &n, &k) != 2) harness_error ("no result"); x.out = r.substr (k + 1, n); x.err = r.substr (k + 1 + n); return x;
}
SCENARIO (C19, program)
{
  sim_setup (); nontrivial (); int nf = 1 + choose (4); size_t need = 64; std::vector<Str> in; static const char *O[] = { "-p", "-T", "-tg", "-S", "-g", "-snd", "-v" }; std::vector<Str> opt; for (int i = choose (3); i > 0; i--) opt.push_back (O[choose (7)]);
  for (int i = 0; i < nf; i++) { size_t mx; Stream s = mixed_stream (3, false, false, &mx); need = std::max (need, mx); Str name = fmt ("%s%d", choose (3) ? "in" : (Str (choose (2) ? 60 : 900, 'n') + "/in").c_str (), i); in.push_back (make_source (SRC_FILE, s.bytes, name).path); if (choose (5) == 4) in.back () += fmt ("@0-%zu", s.bytes.size () - 1); } tune_buffer (need);
  std::vector<Str> direct = opt, listed = opt; int nl = 1 + choose (2); std::vector<Control> cs (nl); bool bad = false; size_t at = 0;
  for (int k = 0; k < nl; k++)
  {
    Control &c = cs[k]; size_t to = k + 1 == nl ? in.size () : at + choose (in.size () - at + 1);
    for (; at < to; at++) { if (choose (4) == 3) c.lines.push_back ("#" + Str (choose (2) ? choose (50) : choose (3000), 'c')); if (choose (5) == 4) c.lines.push_back (""); c.lines.push_back (in[at]); direct.push_back (in[at]); }
    if (choose (12) == 11) { c.lines.push_back (Str (1024 + choose (2000), 'f')); bad = true; }
    store (c, fmt ("list%d", k), choose (2), false); listed.push_back ("@" + c.name);
  }
  Res d = run (direct, ""); if (direct.size () == opt.size ()) return; bool fail = bad; for (auto &c : cs) fail = fail || c.fault; Res l = run (listed, ""); Str cl; for (auto &x : listed) cl += " " + x; log ("msi%s: %d, %zu bytes", cl.c_str (), l.st, l.out.size ());
  if (fail) { NEED (l.st == 1, "control:partial", "msi%s ends with %d although a list file cannot be read completely", cl.substr (0, 200).c_str (), l.st); NEED (l.out.empty (), "control:partial", "msi lists %zu bytes although a list file cannot be read completely", l.out.size ()); NEED (!l.err.empty (), "control:silent", "no message tells about it"); return; }
  NEED (l.st == d.st, "control:effect", "msi ends with %d for the listed files, %d for the same arguments", l.st, d.st); NEED (l.out == d.out, "control:effect", "msi lists %zu bytes for the listed files, %zu for the same arguments", l.out.size (), d.out.size ());
}
SCENARIO (C19, settings)
{
  sim_setup (); nontrivial (); size_t mx; Stream s; 
  { RefRec r; GenOpt o; o.v2 = false; o.zero = false; mx = 64; int n = 1 + choose (5); for (int i = 0; i < n; i++) { RefRec q = gen_record (o); q.start = 1500000000LL * S + choose (1000) * S; q.rate = choose (2) ? 1 : -2; build (q); mx = std::max (mx, q.raw.size ()); s.add (q); } } tune_buffer (mx); make_source (SRC_FILE, s.bytes, "in");
  static const char *O[] = { "-p", "-T", "-tg", "-g", "-t" }; std::vector<Str> a; for (int i = choose (3); i > 0; i--) a.push_back (O[choose (5)]);
  { // a leap second file that fails changes nothing
    Leap l = some_leap ("leaps", true); if (choose (2)) { l.c.lines.insert (l.c.lines.begin (), fmt ("%lld 40", 1500000000LL + NTP + choose (300))); l.t.insert (l.t.begin (), { 0, 0 }); file ("leaps").data = l.c.lines[0] + "\n" + file ("leaps").data; if (l.c.fault && file ("leaps").rp.fail_at >= 0) file ("leaps").rp.fail_at += l.c.lines[0].size () + 1; }
    a.push_back ("in"); Res none = run (a, ""), with = run (a, "leaps"); log ("leap seconds fault %d: %d", l.c.fault, with.st);
    if (l.c.fault) { NEED (with.out == none.out, "control:effect", "a leap second file that cannot be read changes the listing"); NEED (with.err != none.err, "control:silent", "no message tells about it"); }
    NEED (with.st == none.st, "control:status", "msi ends with %d with a leap second file, %d without", with.st, none.st);
  }
}
