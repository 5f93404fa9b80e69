// C17: what was processed before never changes what comes next
#include "ops.h"
using namespace sim;

// one operation after a history of others, and the same operation in a fresh process
SCENARIO (C17, after)
{
  capture_nul = true; sim_setup (); capture_logs (); libmseed_sim_maxreclen = 1 << 20; nontrivial (); int serial = 0; Op op = some_op (choose (5) == 4, serial, -1);
  Str after = isolated ([&] {
    Ctx c; int n = 1 + choose (5);
    for (int i = 0; i < n; i++)
    {
      bool bad = choose (2); Op h = some_op (bad, serial, choose (3) ? -1 : (int)choose (4));
      if (choose (4) == 3) { alloc_reset (); alloc_fail_at (logsize (40), choose (2) ? 1 : 100000); fault ("alloc"); } h (c); alloc_fail_off (); if (choose (2)) meddle (c);
    }
    if (c.l && c.l->numtraceids == 0 && choose (2)) probe ("list-kept"); if (choose (6) == 5) op (c);
    return op (c);
  });
  Ctx f; Str fresh = op (f); hashs (fresh); log ("%s", fresh.substr (0, fresh.find ('|')).c_str ());
  NEED (after == fresh, "history:differs", "after other operations: %s", where (after, fresh).c_str ());
}
// several readers used in turn
SCENARIO (C17, interleaved)
{
  capture_nul = true; sim_setup (); capture_logs (); nontrivial (); int n = 2 + choose (3); struct R { Source s; uint32_t fl; Str alone, got; MS3FileParam *fp = NULL; bool done = false, global = false; Str path; MS3Selections *sel = NULL; };
  std::vector<R> v (n); size_t need = 64; bool onem = choose (2); int g = choose (n + 1); size_t total = 0;
  for (int i = 0; i < n; i++)
  {
    size_t mx; Stream s = mixed_stream (5, false, true, &mx); need = std::max (need, mx); Str b = choose (3) ? s.bytes : damage (s.bytes); total += b.size (); R &r = v[i]; r.global = i == g;
    SrcKind k = choose (2) ? SRC_FILE : SRC_URL; r.s = make_source (k, b, fmt ("in%d", i)); r.path = r.s.path; r.fl = (choose (2) ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_SKIPNOTDATA : 0) | MSF_VALIDATECRC;
    if (i && choose (5) == 4) { r.s = v[0].s; r.path = v[0].path; } if (choose (3) == 2) { r.fl |= MSF_PNAMERANGE; r.path += fmt ("@%u-%u", choose (b.size () + 1), choose (b.size () + 40)); }
    if (choose (4) == 3) { if (k == SRC_URL) server (r.s.path).reset_at = choose (b.size () + 1); else { file (r.s.name).rp.fail_at = choose (b.size () + 1); } fault ("read-fault"); }
    if (!r.global && choose (4) == 3) ms3_addselect (&r.sel, "*_B_*", NSTUNSET, NSTUNSET, 0);
  }
  tune_buffer (need); step_limit (100000000ull + 40000ull * total);
  auto step = [&] (R &r, MS3Record **m, Str &o) { int rc = r.global ? ms3_readmsr (m, r.path.c_str (), r.fl, 0) : r.sel ? ms3_readmsr_selection (&r.fp, m, r.path.c_str (), r.fl, r.sel, 0) : ms3_readmsr_r (&r.fp, m, r.path.c_str (), r.fl, 0); if (rc) { o += fmt ("code %d", rc); return false; } o += gotstr (capture (*m, r.global ? 0 : r.fp->streampos)); return true; };
  for (auto &r : v) { MS3Record *m = NULL; while (step (r, &m, r.alone)) continue; if (r.global) ms3_readmsr (&m, NULL, 0, 0); else ms3_readmsr_r (&r.fp, &m, NULL, 0, 0); NEED (!r.fp, "history:reader", "the reader is not released"); }
  std::vector<MS3Record *> ms (n, NULL); MS3Record *shared = NULL; int left = n; Str order;
  while (left) { int i = choose (n); while (v[i].done) i = (i + 1) % n; order += '0' + i; if (!step (v[i], onem ? &shared : &ms[i], v[i].got)) { v[i].done = true; left--; if (choose (2)) { MS3Record *x = NULL; if (v[i].global) ms3_readmsr (&x, NULL, 0, 0); else ms3_readmsr_r (&v[i].fp, &x, NULL, 0, 0); } } }
  log ("order %s", order.c_str ());
  for (int i = 0; i < n; i++) NEED (v[i].got == v[i].alone, "history:interleaved", "reader %d in the order %s: %s", i, order.c_str (), where (v[i].got, v[i].alone).c_str ());
  for (int i = 0; i < n; i++) { MS3Record *x = NULL; if (v[i].fp) ms3_readmsr_r (&v[i].fp, &x, NULL, 0, 0); msr3_free (&ms[i]); if (v[i].sel) ms3_freeselections (v[i].sel); } msr3_free (&shared);
}
// a parsed state kept over many calls and each call by itself
SCENARIO (C17, extra)
{
  capture_nul = true; sim_setup (); capture_logs (); nontrivial (); MS3Record *a = msr3_init (NULL), *b = msr3_init (NULL); LM_PARSED_JSON *ps = NULL; int n = 1 + choose (12);
  auto start = [&] (const Str &x) { for (MS3Record *m : { a, b }) { if (m->extra) user_free (m->extra); m->extra = x.empty () ? NULL : (char *)user_alloc (x.size () + 1); if (m->extra) memcpy (m->extra, x.c_str (), x.size () + 1); m->extralength = x.size (); } };
  GenOpt o = gopt (); o.v2 = false; start (gen_record (o).extra);
  static const char *P[] = { "/FDSN/Time/Quality", "/FDSN/Time/Correction", "/A", "/A/B", "/A/B/C", "/L", "/L/0", "/L/1", "/FDSN/Logger/Model", "/Long" };
  auto same = [&] (const char *what) { Str x (a->extra ? a->extra : "", a->extralength), y (b->extra ? b->extra : "", b->extralength); NEED (x == y, "history:extra", "%s with a kept parse state gives '%s', without '%s'", what, x.substr (0, 300).c_str (), y.substr (0, 300).c_str ()); };
  bool inloop = false;
  for (int i = 0; i < n; i++)
  {
    const char *p = P[choose (10)]; int k = choose (8); inloop = true; int ra = 0, rb = 0;
    if (k == 0) { double v = choose (1000) / 8.0; ra = mseh_set_ptr_r (a, p, &v, 'n', &ps); rb = mseh_set_ptr_r (b, p, &v, 'n', NULL); log ("set %s number: %d %d", p, ra, rb); }
    else if (k == 1) { int64_t v = (int64_t)choose (1000000) - 500000; ra = mseh_set_ptr_r (a, p, &v, 'i', &ps); rb = mseh_set_ptr_r (b, p, &v, 'i', NULL); log ("set %s integer: %d %d", p, ra, rb); }
    else if (k == 2) { Str v (choose (60), 'x'); ra = mseh_set_ptr_r (a, p, (void *)v.c_str (), 's', &ps); rb = mseh_set_ptr_r (b, p, (void *)v.c_str (), 's', NULL); log ("set %s string: %d %d", p, ra, rb); }
    else if (k == 3) { int v = choose (2); ra = mseh_set_ptr_r (a, p, &v, 'b', &ps); rb = mseh_set_ptr_r (b, p, &v, 'b', NULL); log ("set %s boolean: %d %d", p, ra, rb); }
    else if (k == 4) { const char *v = choose (2) ? "{\"B\":{\"C\":1},\"D\":[1,2]}" : "{\"A\":null}"; ra = mseh_set_ptr_r (a, choose (2) ? "" : p, (void *)v, 'M', &ps); rb = 0; if (ra >= 0 || ra < 0) { /* merged through the kept state only: continue from there */ mseh_serialize (a, &ps); Str x (a->extra ? a->extra : "", a->extralength); if (b->extra) user_free (b->extra); b->extra = x.empty () ? NULL : (char *)user_alloc (x.size () + 1); if (b->extra) memcpy (b->extra, x.c_str (), x.size () + 1); b->extralength = x.size (); } rb = ra; log ("merge %s: %d", p, ra); }
    else if (k == 5) { MSEHEventDetection d; memset (&d, 0, sizeof d); strcpy (d.type, "GENERIC"); d.signalamplitude = choose (9); d.signalperiod = choose (9); d.onsettime = 1700000000000000000LL; ra = mseh_add_event_detection_r (a, NULL, &d, &ps); rb = mseh_add_event_detection_r (b, NULL, &d, NULL); log ("detection: %d %d", ra, rb); }
    else if (k == 6) { MSEHRecenter d; memset (&d, 0, sizeof d); strcpy (d.type, "MASS"); d.begintime = 1600000000000000000LL; d.endtime = NSTUNSET; strcpy (d.trigger, "MANUAL"); ra = mseh_add_recenter_r (a, choose (2) ? NULL : "/L", &d, &ps); rb = ra; mseh_serialize (a, &ps); { Str x (a->extra ? a->extra : "", a->extralength); if (b->extra) user_free (b->extra); b->extra = x.empty () ? NULL : (char *)user_alloc (x.size () + 1); if (b->extra) memcpy (b->extra, x.c_str (), x.size () + 1); b->extralength = x.size (); } log ("recenter: %d", ra); }
    else { double x = -1, y = -1; ra = mseh_get_ptr_r (a, p, &x, 'n', 0, &ps); rb = mseh_get_ptr_r (b, p, &y, 'n', 0, NULL); NEED (x == y || ra, "history:extra", "%s is %g with a kept parse state, %g without", p, x, y); log ("get %s: %d %d", p, ra, rb); }
    NEED (ra == rb, "history:extra", "%s: %d with a kept parse state, %d without; %s", p, ra, rb, LogCapture::diag.c_str ());
    if (choose (3) == 2) { ra = mseh_serialize (a, &ps); NEED (ra >= 0, "history:extra", "serializing fails"); same ("serializing"); inloop = false; }
    if (choose (5) == 4) { if (inloop) mseh_serialize (a, &ps); same ("freeing"); mseh_free_parsestate (&ps); inloop = false; }
  }
  if (ps) { mseh_serialize (a, &ps); mseh_free_parsestate (&ps); } same ("at the end"); msr3_free (&a); msr3_free (&b);
}
// the program on several files, and on each alone
SCENARIO (C17, program)
{
  sim_setup (); nontrivial (); int n = 2 + choose (2); std::vector<Str> o, in; size_t need = 64; static const char *L[] = { "-p", "-pp", "-ppp", "-d", "-D", "-O", "-z", "-snd", "-snd", "-v", "-ts", "-te", "-m", "-r" };
  for (int i = choose (4); i > 0; i--) { Str x = L[choose (14)]; o.push_back (x); if (x == "-ts" || x == "-te") o.push_back (fmt ("20%02d-01-01", 17 + choose (10))); if (x == "-m" || x == "-r") o.push_back (choose (2) ? "B" : "_H_"); }
  bool copy = choose (2), bin = choose (3) == 2; if (copy) { o.push_back ("-o"); o.push_back ("copy"); } if (bin) { o.push_back ("-b"); o.push_back ("bin"); }
  for (int i = 0; i < n; i++) { size_t mx; Stream s = mixed_stream (4, false, false, &mx); need = std::max (need, mx); in.push_back (make_source (SRC_FILE, s.bytes, fmt ("in%d", i)).path); if (choose (4) == 3) in.back () = make_source (SRC_URL, s.bytes, fmt ("in%d", i)).path; }
  tune_buffer (need); struct Out { Str all, copy, bin; int st; };
  auto run = [&] (const std::vector<Str> &a) { Str r = isolated ([&] { auto v = o; v.insert (v.end (), a.begin (), a.end ()); if (v.empty ()) v.push_back ("-h"); MsiResult m = run_msi (v); Str c = has_file ("copy") ? file ("copy").data : "", b = has_file ("bin") ? file ("bin").data : ""; return fmt ("%d %zu %zu %zu ", m.status, m.out.size (), c.size (), b.size ()) + m.out + c + b; }); Out x; size_t l1, l2, l3; int k = 0; if (sscanf (r.c_str (), "%d %zu %zu %zu%n", &x.st, &l1, &l2, &l3, &k) != 4) harness_error ("no result"); k++; x.all = r.substr (k, l1); x.copy = r.substr (k + l1, l2); x.bin = r.substr (k + l1 + l2, l3); return x; };
  Out both = run (in); Out sum; sum.st = 0; for (auto &p : in) { Out x = run ({ p }); if (x.st) sum.st = x.st; sum.all += x.all; sum.copy += x.copy; sum.bin += x.bin; if (x.st) break; }
  log ("status %d, %zu bytes", both.st, both.all.size ()); hashs (both.all); hashs (both.copy);
  NEED (both.st == sum.st, "history:program", "status %d for all files, %d one by one", both.st, sum.st);
  NEED (both.copy == sum.copy, "history:program", "the copy of all files: %s", where (both.copy, sum.copy).c_str ()); NEED (both.bin == sum.bin, "history:program", "the samples of all files: %s", where (both.bin, sum.bin).c_str ());
  NEED (both.all == sum.all, "history:program", "the listing of all files: %s", where (both.all, sum.all).c_str ());
}
