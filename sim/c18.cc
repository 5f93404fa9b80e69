// C18: log messages are delivered once, in order, bounded and per context
#include "scn.h"
#include <deque>
using namespace sim;

extern FILE *sim_stdout, *sim_stderr;
static const size_t MAXM = MAX_LOG_MSG_LENGTH - 1;
struct Del { int handler; Str text; };
struct Side; // what one thread sees
static thread_local Side *t_side = NULL;
struct Side { std::vector<Del> got; std::function<void (int)> again; };
template <int N> static void handler (const char *s) { NEED (t_side, "log:stray", "a handler is called outside of any context"); NEED (strlen (s) <= MAXM, "log:length", "a message of %zu characters is delivered", strlen (s)); t_side->got.push_back ({ N, s }); if (t_side->again) t_side->again (N); }
typedef void (*Fn) (const char *);
static Fn H[] = { handler<0>, handler<1>, handler<2>, handler<3>, handler<4>, handler<5> };
enum { DEF_LOG = -1, DEF_DIAG = -2 };
struct Msg { int level; Str func, text; bool anyfunc; };
// one context and its model
struct C
{
  MSLogParam *p = NULL; bool global = false; Str logp, errp; bool haslog = false, haserr = false; int hl = DEF_LOG, hd = DEF_DIAG; int max = 0; std::deque<Msg> reg;
};
struct World
{
  Side side; std::vector<Del> want; Str wout, werr; std::vector<C> cs; std::set<Str> keep; int depth = 0; int armed = -1; /* context the handlers log to */ int alevel = 0; bool defaults = true; Str who;
  const char *hold (const Str &s) { return keep.insert (s).first->c_str (); }
  void deliver (C &c, int level, const Str &text, bool nl)
  {
    if (level < 0) return; int h = level >= 1 ? c.hd : c.hl;
    if (h == DEF_LOG) wout += text + (nl ? "\n" : ""); else if (h == DEF_DIAG) werr += text + (nl ? "\n" : "");
    else { want.push_back ({ h, text }); if (armed >= 0 && depth == 0) { depth++; logm (cs[armed], alevel, "again", "from a handler\n"); depth--; } }
  }
  int logm (C &c, int level, const char *func, Str text, bool anyfunc = false, bool lost = false)
  {
    Str m; if (level >= 2) m = (c.haserr ? c.errp : Str ("Error: ")) + text; else if (level >= 0) m = (c.haslog ? c.logp : Str ()) + text; if (m.size () > MAXM) m.resize (MAXM);
    if (level >= 1 && c.max > 0)
    {
      if (m.size () && m.back () == '\n') m.pop_back (); if (lost) { deliver (c, level, m, true); return m.size (); }
      Str f = func ? func : ""; if (f.size () > sizeof (((MSLogEntry *)0)->function) - 1) f.resize (sizeof (((MSLogEntry *)0)->function) - 1); c.reg.push_back ({ level, f, m, anyfunc }); while ((int)c.reg.size () > c.max) c.reg.pop_front ();
    }
    else deliver (c, level, m, false);
    return m.size ();
  }
  // is this what emitting the message with its function gives: as much of it as is promised
  int emit (C &c, int count, int context)
  {
    std::vector<Msg> out; size_t n = count > 0 ? std::min<size_t> (count, c.reg.size ()) : c.reg.size (); for (size_t i = c.reg.size () - n; i < c.reg.size (); i++) out.push_back (c.reg[i]); c.reg.resize (c.reg.size () - n);
    for (auto &m : out) { Str t = context && (m.func.size () || m.anyfunc) ? (m.anyfunc ? Str ("\x01") : m.func + "() ") + m.text : m.text; deliver (c, m.level, context ? "\x02" + t : t, true); }
    return n;
  }
};
// an emitted message with its function may lose its end, never its start
static bool agrees (const Str &want, const Str &got)
{
  if (want.empty () || want[0] != '\x02') return want == got; Str w = want.substr (1);
  if (w.size () && w[0] == '\x01') { size_t at = got.find ("() "); if (at == Str::npos) return false; Str x = got.substr (at + 3); return x == w.substr (1) || (got.size () > 150 && w.compare (1, x.size (), x) == 0); }
  if (w == got) return true; return got.size () >= MAX_LOG_MSG_LENGTH - sizeof (((MSLogEntry *)0)->function) - 3 && w.compare (0, got.size (), got) == 0;
}
static void check (World &w, const char *what)
{
  size_t n = std::min (w.want.size (), w.side.got.size ());
  for (size_t i = 0; i < n; i++) { NEED (w.want[i].handler == w.side.got[i].handler, "log:handler", "%s: message %zu '%.80s' goes to handler %d instead of %d", what, i, w.side.got[i].text.c_str (), w.side.got[i].handler, w.want[i].handler); NEED (agrees (w.want[i].text, w.side.got[i].text), "log:text", "%s: message %zu is '%s' instead of '%s'", what, i, w.side.got[i].text.c_str (), w.want[i].text.c_str ()); }
  NEED (w.want.size () == w.side.got.size (), w.want.size () > w.side.got.size () ? "log:lost" : "log:extra", "%s: %zu messages are delivered instead of %zu", what, w.side.got.size (), w.want.size ()); w.want.clear (); w.side.got.clear ();
  for (auto &c : w.cs) if (c.p)
  {
    NEED (c.p->registry.messagecnt == (int)c.reg.size (), "log:count", "%s: the registry counts %d messages instead of %zu", what, c.p->registry.messagecnt, c.reg.size ()); size_t k = c.reg.size ();
    for (MSLogEntry *e = c.p->registry.messages; e; e = e->next) { NEED (k > 0, "log:registry", "%s: the registry has more than its %zu messages", what, c.reg.size ()); Msg &m = c.reg[--k]; NEED (m.text == e->message && m.level == e->level && (m.anyfunc || m.func == e->function), "log:registry", "%s: the registry has '%s' of %s at level %d instead of '%s' of %s at level %d", what, e->message, e->function, e->level, m.text.c_str (), m.func.c_str (), m.level); } NEED (k == 0, "log:registry", "%s: %zu messages are missing from the registry", what, k);
  }
}
static Str some_text () { size_t n = choose (3) ? choose (50) : choose (2) ? 150 + choose (100) : choose (1000); Str s (n, 'a'); Rng r = bulk (); for (auto &c : s) { c = 'a' + r.below (26); if (r.below (20) == 0) c = " %\n\\\t"[r.below (5)]; } if (choose (2)) s += "\n"; return s; }
static Str some_prefix () { switch (choose (5)) { case 0: return ""; case 1: return "pre: "; case 2: return Str (choose (60), 'P'); case 3: return Str (MAX_LOG_MSG_LENGTH - 1 - choose (12), 'Q'); default: return "%s %n "; } }
struct Plan { int op, c, level, a, b, max; Str text, func, lp, ep; bool nofunc, useL, useE; int failat; };
static Plan some_plan (int nc, bool allocs)
{
  Plan p; p.op = choose (12); p.c = choose (nc); p.level = choose (4) ? choose (3) : (int)choose (6) - 2; p.a = choose (3) ? choose (4) : (int)choose (400) - 2; p.b = choose (2); p.max = choose (4) ? (int)choose (6) : choose (2) ? -1 : 1000; p.text = some_text (); p.nofunc = choose (8) == 7; p.func = Str (choose (3) ? 1 + choose (10) : choose (70) + 1, 'f'); p.lp = some_prefix (); p.ep = some_prefix (); p.useL = choose (2); p.useE = choose (2); p.failat = allocs && choose (8) == 7 ? 1 : 0; return p;
}
// bounded: handlers chosen from the given range, so that a default one is not used from threads
static void run_plan (World &w, const Plan &p, int hl, int hd)
{
  C &c = w.cs[p.c]; MSLogParam *lp = c.global ? NULL : c.p; const char *func = p.nofunc ? NULL : p.func.c_str ();
  switch (p.op)
  {
  case 0: { int n = ms_rlog_emit (lp, p.a, p.b); int m = w.emit (c, p.a, p.b); NEED (n == m, "log:emit", "emitting %d returns %d instead of %d", p.a, n, m); break; }
  case 1: { if (p.a % 3) break; int n = ms_rlog_free (lp); int m = c.reg.size (); c.reg.clear (); NEED (n == m, "log:free", "clearing the registry returns %d instead of %d", n, m); break; }
  case 2: { // configure again
    Fn a = hl < 0 ? NULL : H[hl], b = hd < 0 ? NULL : H[hd]; const char *l = p.useL ? w.hold (p.lp) : NULL, *e = p.useE ? w.hold (p.ep) : NULL;
    if (c.global) ms_rloginit (a, l, b, e, p.max); else { MSLogParam *q = ms_rloginit_l (c.p, a, l, b, e, p.max); NEED (q == c.p, "log:context", "another context is returned"); }
    if (a) c.hl = hl; if (b) c.hd = hd; if (l) { c.logp = l; c.haslog = true; } if (e) { c.errp = e; c.haserr = true; } if (p.max >= 0) c.max = p.max; break; }
  case 3: { // a prefix that is too long is refused with a message and changes nothing
    if (p.a % 3) break; Str big (MAX_LOG_MSG_LENGTH + p.b * 50, 'Z'); const char *x = w.hold (big); bool isl = p.useL; if (c.global) ms_rloginit (NULL, isl ? x : NULL, NULL, isl ? NULL : x, -1); else ms_rloginit_l (c.p, NULL, isl ? x : NULL, NULL, isl ? NULL : x, -1);
    w.logm (c, 2, "rloginit_int", isl ? "log message prefix is too large" : "error message prefix is too large", true); break; }
  case 4: case 5: { int n = c.global ? ms_rlog (func, p.level, "%d and %s", p.a, p.text.c_str ()) : ms_rlog_l (c.p, func, p.level, "%d and %s", p.a, p.text.c_str ()); int m = w.logm (c, p.level, func, fmt ("%d and ", p.a) + p.text); if (p.level >= 0) NEED (n == m, "log:returned", "%d characters are reported instead of %d", n, m); break; }
  case 6: w.armed = p.b ? p.c : -1; w.alevel = p.level < 0 ? 0 : p.level; w.side.again = nullptr; if (w.armed >= 0) { World *q = &w; w.side.again = [q] (int) { static thread_local int d = 0; if (d) return; d++; C &k = q->cs[q->armed]; if (k.global) ms_rlog ("again", q->alevel, "%s", "from a handler\n"); else ms_rlog_l (k.p, "again", q->alevel, "%s", "from a handler\n"); d--; }; } break;
  default: {
    bool lost = p.failat && p.level >= 1 && c.max > 0; if (lost) { if (w.armed >= 0) { w.armed = -1; w.side.again = nullptr; } alloc_fail_at (0); fault ("alloc"); w.werr += "\x03"; } int n = c.global ? ms_rlog (func, p.level, "%s", p.text.c_str ()) : ms_rlog_l (c.p, func, p.level, "%s", p.text.c_str ()); if (lost) alloc_fail_off ();
    int m = w.logm (c, p.level, func, p.text, false, lost); if (p.level >= 0) NEED (n == m, "log:returned", "%d characters are reported instead of %d", n, m); }
  }
}
static void add_contexts (World &w, int n, bool deflt)
{
  C g; g.global = true; if (deflt) g.p = NULL; w.cs.push_back (g);
  for (int i = 1; i < n; i++) { C c; c.p = ms_rloginit_l (NULL, NULL, NULL, NULL, NULL, choose (2) ? 0 : -1); NEED (c.p, "log:context", "no context"); w.cs.push_back (c); }
}
static void finish (World &w)
{
  for (auto &c : w.cs) { MSLogParam *lp = c.global ? NULL : c.p; int n = ms_rlog_emit (lp, 0, 0), m = w.emit (c, 0, 0); NEED (n == m, "log:emit", "emitting all returns %d instead of %d", n, m); } check (w, "emitting all");
  w.armed = -1; w.side.again = nullptr; for (auto &c : w.cs) { ms_rlog_free (c.global ? NULL : c.p); if (!c.global) user_free (c.p); }
}
SCENARIO (C18, contexts)
{
  sim_setup (); nontrivial (); ms_rloginit (handler<0>, "", handler<3>, "", 0); World w; t_side = &w.side; add_contexts (w, 1 + choose (3), false); w.cs[0].hl = 0; w.cs[0].hd = 3; w.cs[0].haslog = w.cs[0].haserr = true; size_t live0 = live_blocks (); live0 -= w.cs.size () - 1; int n = 5 + choose (60); std::set<int> lev;
  for (int i = 0; i < n; i++) { Plan p = some_plan (w.cs.size (), true); int hl = (int)choose (4) - 1, hd = choose (4) ? 2 + (int)choose (4) : -1; run_plan (w, p, hl, hd); check (w, fmt ("step %d, operation %d", i, p.op).c_str ()); }
  finish (w); NEED (live_blocks () == live0, "log:leak", "memory is left over: %s", live_desc ().c_str ());
  fflush (sim_stdout); fflush (sim_stderr); NEED (out_text () == w.wout, "log:default", "standard output has '%.200s' instead of '%.200s'", out_text ().c_str (), w.wout.c_str ());
  // failing to store a message is reported on standard error as well, in words of its own
  if (w.werr.find ('\x03') == Str::npos && w.werr.find ('\x02') == Str::npos) NEED (err_text () == w.werr, "log:default", "standard error has '%.200s' instead of '%.200s'", err_text ().c_str (), w.werr.c_str ());
}
// every thread starts with the library's defaults and has its own parameters
SCENARIO (C18, threads)
{
  sim_setup (); nontrivial (); int n = 2 + choose (3); std::vector<std::vector<Plan>> plans (n); std::vector<std::vector<std::pair<int, int>>> hs (n); std::vector<World> ws (n); bool first = choose (2);
  ms_rloginit (handler<5>, "main", handler<5>, "main", 3); Side mine; t_side = &mine;
  for (int i = 0; i < n; i++) { int k = 3 + choose (25); ws[i].who = fmt ("thread %d", i); for (int j = 0; j < k; j++) { plans[i].push_back (some_plan (1 + choose (2), false)); hs[i].push_back ({ (int)choose (3), 2 + (int)choose (4) }); } }
  std::vector<std::function<void ()>> bodies;
  for (int i = 0; i < n; i++) bodies.push_back ([&, i] {
    World &w = ws[i]; t_side = &w.side; C g; g.global = true; w.cs.push_back (g); C l; l.p = ms_rloginit_l (NULL, H[i % 3], "", H[3 + i % 3], "", 0); l.hl = i % 3; l.hd = 3 + i % 3; l.haslog = l.haserr = true; w.cs.push_back (l);
    if (first) ms_log (2, "fresh %d\n", i);
    ms_rloginit (H[i % 3], "", H[3 + i % 3], "", 0); C &c = w.cs[0]; c.hl = i % 3; c.hd = 3 + i % 3; c.haslog = c.haserr = true;
    for (size_t j = 0; j < plans[i].size (); j++) { run_plan (w, plans[i][j], hs[i][j].first, hs[i][j].second); check (w, fmt ("thread %d, step %zu", i, j).c_str ()); }
    finish (w);
  });
  threads (bodies, choose (4)); t_side = &mine;
  NEED (mine.got.empty (), "log:stray", "a message of a thread is delivered to the handlers of another: '%s'", mine.got[0].text.c_str ()); NEED (ms_rlog_free (NULL) == 0, "log:stray", "a message of a thread is in the registry of another");
  Str e = err_text (); for (int i = 0; i < n && first; i++) { Str x = fmt ("Error: fresh %d\n", i); size_t at = e.find (x); NEED (at != Str::npos, "log:default", "a new thread does not log to standard error with the default prefix: '%.200s'", e.c_str ()); e.erase (at, x.size ()); } NEED (e.empty (), "log:default", "standard error also has '%.200s'", e.c_str ());
}
// the messages of real work: directly, all kept, and some kept
SCENARIO (C18, work)
{
  sim_setup (); nontrivial (); size_t mx; Stream s = mixed_stream (5, false, true, &mx); Str b = s.bytes; for (int n = choose (5); n > 0 && b.size () > 50; n--) switch (choose (3)) { case 0: b[choose (b.size ())] ^= 1 << choose (8); break; case 1: b.resize (b.size () - choose (std::min<size_t> (b.size () - 40, 300))); break; default: b.insert (choose (b.size () + 1), Str (1 + choose (90), 'j')); } tune_buffer (std::max (mx, b.size ())); make_source (SRC_FILE, b, "in");
  uint32_t fl = (choose (2) ? MSF_UNPACKDATA : 0) | (choose (3) ? MSF_SKIPNOTDATA : 0) | MSF_VALIDATECRC; int verb = choose (4); bool sel = choose (2); Str lp = some_prefix (), ep = some_prefix (); int reps = 1 + choose (6); int max = 1 + choose (10), ctx = choose (2);
  auto work = [&] { for (int i = 0; i < reps; i++) { MS3FileParam *fp = NULL; MS3Record *m = NULL; MS3TraceList *l = mstl3_init (NULL); int rc; while ((rc = ms3_readmsr_r (&fp, &m, "in", fl, verb)) == 0) { mstl3_addmsr (l, m, 0, 1, 0, NULL); if (verb > 1) msr3_print (m, 1); } ms3_readmsr_r (&fp, &m, NULL, 0, 0); ms3_readtracelist (&l, "absent", NULL, 0, 0, verb); if (sel) { MS3Selections *x = NULL; ms3_addselect (&x, "bad[", NSTUNSET, NSTUNSET, 0); ms3_readselectionsfile (&x, "none"); ms3_freeselections (x); } msr3_pack (NULL, NULL, NULL, NULL, 0, 0); ms_timestr2nstime ("no time"); mstl3_printtracelist (l, SEEDORDINAL, 1, 1, 1); mstl3_free (&l, 0); } };
  auto run = [&] (int m, int count, int context) { Side sd; t_side = &sd; ms_rloginit (handler<0>, lp.c_str (), handler<1>, ep.c_str (), m); work (); int k = m ? ms_rlog_emit (NULL, count, context) : 0; ms_rlog_free (NULL); log ("%zu messages, %d emitted", sd.got.size (), k); t_side = NULL; std::vector<Str> o[2]; for (auto &d : sd.got) o[d.handler].push_back (d.text); return std::make_pair (o[0], o[1]); };
  auto a = run (0, 0, 0), all = run (1000000, 0, 0), some = run (max, 0, 0); int cnt = 1 + choose (max + 3); auto last = run (max, cnt, ctx);
  auto bare = a.second; for (auto &x : bare) if (x.size () && x.back () == '\n') x.pop_back ();
  NEED (a.first == all.first && a.first == some.first, "log:normal", "keeping errors changes the normal messages"); NEED (bare == all.second, "log:kept", "%zu errors are delivered at once, %zu after keeping them", bare.size (), all.second.size ());
  auto tail = [&] (size_t k) { return std::vector<Str> (bare.end () - std::min (k, bare.size ()), bare.end ()); };
  NEED (some.second == tail (max), "log:kept", "the last %d of %zu errors are not what a registry of %d keeps", max, bare.size (), max);
  auto t = tail (std::min<size_t> (cnt, max)); NEED (t.size () == last.second.size (), "log:kept", "%zu errors are emitted instead of %zu", last.second.size (), t.size ());
  for (size_t i = 0; i < t.size (); i++) { const Str &g = last.second[i]; Str x = g; if (ctx) { size_t at = x.find ("() "); NEED (at != Str::npos, "log:kept", "no function in '%s'", g.c_str ()); x = x.substr (at + 3); NEED (t[i].compare (0, x.size (), x) == 0 && (x.size () == t[i].size () || g.size () > 150), "log:kept", "'%s' instead of '%s'", x.c_str (), t[i].c_str ()); } else NEED (x == t[i], "log:kept", "'%s' instead of '%s'", x.c_str (), t[i].c_str ()); }
}
