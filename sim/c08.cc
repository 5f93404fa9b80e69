// C08: a failed write is never reported as success
#include "scn.h"
#include <errno.h>
using namespace sim;

static int werr () { static const int e[] = { ENOSPC, EIO, EDQUOT, EFBIG, EROFS, ENOMEM }; return e[choose (6)]; }
// a random fault for a file that would receive about `expect` bytes beyond what it holds
static bool plan_write (File &f, int64_t expect)
{
  int64_t at = choose (4) == 0 ? 0 : choose (3) == 0 ? std::max<int64_t> (0, expect - 1 - choose (64)) : choose ((uint32_t)expect + 1);
  f.wp.flush_only_at_close = choose (3) == 2;
  switch (choose (6))
  {
  case 0: return false; // no fault
  case 1: case 2: f.wp.capacity = f.data.size () + at; f.wp.err = ENOSPC; break;
  case 3: f.wp.fail_at = f.data.size () + at; f.wp.err = werr (); break;
  case 4: f.wp.fail_at = f.data.size () + at; f.wp.err = werr (); f.wp.transient = true; break;
  default: f.wp.close_fails = true; f.wp.err = werr ();
  }
  return true;
}
static void describe_plan (const char *n, const File &f) { log ("%s: holds %zu, capacity %lld, fails at %lld%s errno %d%s%s", n, f.data.size (), (long long)f.wp.capacity, (long long)f.wp.fail_at, f.wp.transient ? " once" : "", f.wp.err, f.wp.close_fails ? ", close fails" : "", f.wp.flush_only_at_close ? ", buffered" : ""); }
static std::vector<Str> s_recs;
static void collect (char *rec, int len, void *) { s_recs.push_back (Str (rec, len)); }
static Str joined () { Str s; for (auto &r : s_recs) s += r; return s; }

static void check_written (const char *what, const File &f, const Str &before, int64_t rc, int64_t opens0)
{
  Str want = before + joined ();
  if (f.write_failed || f.close_failed) NEED (rc < 0, "write:success", "%s: not all bytes could be stored but %lld records are reported written", what, (long long)rc);
  else NEED (rc >= 0, "write:error", "%s: nothing failed but an error is reported", what);
  if (rc >= 0)
  {
    NEED (rc == (int64_t)s_recs.size (), "write:count", "%s: %lld records reported, the data make %zu", what, (long long)rc, s_recs.size ());
    NEED (f.data == want, "write:content", "%s: reported written, the file holds %zu bytes instead of %zu (or others)", what, f.data.size (), want.size ());
  }
  else NEED (f.data.compare (0, before.size (), before) == 0, "write:content", "%s: what the file held before is not kept", what);
  NEED (f.opens - opens0 == f.closes, "write:open", "%s: opened %d times, closed %d times", what, f.opens, f.closes);
}
// one record structure written to a file or standard output
SCENARIO (C08, record)
{
  sim_setup ();
  GenOpt o; o.legacy = false; o.max_samples = choose (2) ? 300 : 4000; RefRec r = gen_record (o); MS3Record *m = NULL;
  NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused");
  if (r.fmt == 2) m->formatversion = 3;
  m->reclen = 128 + r.sid.size () + r.extra.size () + m->extralength + choose (600); nontrivial ();
  uint32_t fl = choose (4) == 3 ? 0 : MSF_FLUSHDATA;
  s_recs.clear (); int packed = msr3_pack (m, collect, NULL, NULL, fl, 0); NEED (packed == (int)s_recs.size () && packed >= 0, "write:pack", "packing fails");
  bool sto = choose (4) == 3; int writes = 1 + choose (2); Str name = any_name ("out.mseed"); Str before; File &f = file (sto ? Str ("<stdout>") : name);
  if (!sto && choose (2)) { Rng g = bulk (); size_t n = logsize (2000); for (size_t i = 0; i < n; i++) before += (char)g.next (); f.data = before; }
  bool over = !sto && choose (2); if (over) before.clear ();
  if (over) { Str b; std::swap (b, f.data); plan_write (f, joined ().size ()); f.data = b; } else plan_write (f, joined ().size () * writes);
  describe_plan (sto ? "stdout" : "out.mseed", f);
  for (int i = 0; i < writes; i++)
  {
    int o0 = f.opens - f.closes; bool wf = f.write_failed, cf = f.close_failed; if (wf || cf) break;
    int64_t rc = msr3_writemseed (m, sto ? "-" : name.c_str (), over, fl, 0);
    log ("write %d: %lld of %d records, %zu bytes in file", i, (long long)rc, packed, f.data.size ());
    if (sto) { bool fail = f.write_failed; NEED (!fail || rc < 0, "write:success", "writing to standard output fails but %lld records are reported written", (long long)rc); NEED (fail || rc >= 0, "write:error", "nothing failed"); if (rc >= 0) { NEED (rc == packed, "write:count", "%lld of %d", (long long)rc, packed); before += joined (); NEED (out_text () == before, "write:content", "reported written, standard output holds %zu bytes instead of %zu", out_text ().size (), before.size ()); } }
    else { check_written ("msr3_writemseed", f, before, rc, o0); if (rc >= 0) before = over ? Str () : f.data; }
  }
  msr3_free (&m);
  NEED (open_streams () == 0, "write:open", "%d streams left open", open_streams ());
}
// a trace list
SCENARIO (C08, tracelist)
{
  sim_setup ();
  MS3TraceList *l = NULL; std::vector<RefRec> recs; int n = 1 + choose (6);
  for (int i = 0; i < n; i++) { GenOpt o; o.v2 = false; o.zero = false; o.max_samples = choose (2) ? 200 : 3000; o.sidpool = 6; RefRec r = gen_record (o); if (r.rate <= 0 && r.rate > -1e-6) continue; recs.push_back (r); }
  Tol t; std::vector<size_t> ord; for (size_t i = 0; i < recs.size (); i++) ord.push_back (i);
  l = mstl3_init (NULL); MS3Record *m = NULL;
  for (auto &r : recs) { NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused"); mstl3_addmsr (l, m, 1, 1, 0, NULL); }
  msr3_free (&m);
  int reclen = 200 + choose (1000); static const int E[] = { -1, -1, 11, 10, 3 }; int enc = E[choose (5)]; nontrivial ();
  s_recs.clear (); int64_t packed = mstl3_pack (l, collect, NULL, reclen, enc, NULL, MSF_FLUSHDATA | MSF_MAINTAINMSTL, 0, NULL);
  // what was packed is all there is, in the order of the list; an error needs samples that the encoding cannot hold
  { Str have, want; bool steep = false; for (auto &b : s_recs) { RefRec q; Str e; NEED (decode_rec (b.data (), b.size (), q, &e) == b.size (), "write:pack", "a packed record does not decode: %s", e.c_str ()); have += q.s.bytes (); }
    for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) { if (g->numsamples) want += Str ((char *)g->datasamples, g->numsamples * ms_samplesize (g->sampletype)); if (g->sampletype == 'i' && (enc == -1 || enc == 11)) for (int64_t k = 0, p = 0; k < g->numsamples; k++) { int64_t v = ((int32_t *)g->datasamples)[k], d = v - p; if (d < -536870912 || d > 536870911 || v < -536870912 || v > 536870911) steep = true; p = v; } }
    if (packed < 0) { NEED (steep, "write:error", "packing fails where every sample can be encoded"); probe ("cannot-encode"); } else { NEED (packed == (int64_t)s_recs.size (), "write:count", "%lld records reported, %zu handed over", (long long)packed, s_recs.size ()); NEED (have == want, "write:pack", "packing reports success but %zu of %zu bytes of samples are in the records (or others)", have.size (), want.size ()); } }
  if (packed < 0) { // not representable in the encoding asked for: never a success
    int64_t rc = mstl3_writemseed (l, "out.mseed", 1, reclen, enc, 0, 0); NEED (rc < 0, "write:success", "data that cannot be packed are reported written"); mstl3_free (&l, 0); return; }
  bool sto = choose (4) == 3; Str name = any_name ("out.mseed"), before; File &f = file (sto ? Str ("<stdout>") : name);
  if (!sto && choose (2)) { Rng g = bulk (); size_t k = logsize (2000); for (size_t i = 0; i < k; i++) before += (char)g.next (); f.data = before; }
  bool over = !sto && choose (2); if (over) before.clear ();
  if (over) { Str b; std::swap (b, f.data); plan_write (f, joined ().size ()); f.data = b; } else plan_write (f, joined ().size ());
  bool noopen = !sto && choose (10) == 9; if (noopen) { f.open_errno = EACCES; fault ("open-fail"); }
  describe_plan (sto ? "stdout" : "out.mseed", f); Str st = seginfo (l);
  int64_t rc = mstl3_writemseed (l, sto ? "-" : name.c_str (), over, reclen, enc, 0, 0);
  log ("%zu records of data, %lld written", s_recs.size (), (long long)rc);
  if (noopen) NEED (rc < 0, "write:success", "the file cannot be opened but %lld records are reported written", (long long)rc);
  else if (sto) { NEED (!f.write_failed || rc < 0, "write:success", "writing to standard output fails but %lld records are reported written", (long long)rc); NEED (f.write_failed || rc == packed, "write:count", "%lld of %lld", (long long)rc, (long long)packed); if (rc >= 0) NEED (out_text () == joined (), "write:content", "reported written, standard output holds other bytes"); }
  else check_written ("mstl3_writemseed", f, before, rc, 0);
  NEED (seginfo (l) == st, "write:list", "writing a trace list to a file changes it");
  // the cause removed, the same call succeeds
  if (rc < 0 && !sto) { f.wp = WritePlan (); f.open_errno = 0; f.write_failed = f.close_failed = false; rc = mstl3_writemseed (l, name.c_str (), 1, reclen, enc, 0, 0); NEED (rc == packed, "write:retry", "after the cause is gone %lld of %lld records are written", (long long)rc, (long long)packed); NEED (f.data == joined (), "write:retry", "after the cause is gone the file holds other bytes"); }
  mstl3_free (&l, 0);
  NEED (open_streams () == 0, "write:open", "%d streams left open", open_streams ());
}
// appending to a file turn by turn, some of the turns failing
SCENARIO (C08, turns)
{
  sim_setup ();
  Str name = "archive.mseed"; int turns = 2 + choose (6); Str good; File &f = file (name); nontrivial ();
  for (int k = 0; k < turns; k++)
  {
    GenOpt o; o.v2 = false; o.legacy = false; RefRec r = gen_record (o); MS3Record *m = NULL; NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused");
    m->reclen = 128 + r.sid.size () + r.extra.size () + choose (600); s_recs.clear (); msr3_pack (m, collect, NULL, NULL, MSF_FLUSHDATA, 0);
    f.wp = WritePlan (); f.write_failed = f.close_failed = false; Str before = f.data; bool bad = plan_write (f, joined ().size ()); (void)bad; int o0 = f.opens - f.closes;
    int64_t rc = msr3_writemseed (m, name.c_str (), 0, MSF_FLUSHDATA, 0);
    log ("turn %d: %lld records, %zu bytes in file", k, (long long)rc, f.data.size ());
    check_written ("append", f, before, rc, o0); msr3_free (&m);
  }
}
// the program
SCENARIO (C08, msi)
{
  sim_setup ();
  int n = 1 + choose (3); Str all; size_t mx = 64; std::vector<Str> args; Str bin; bool vb = false;
  std::vector<Stream> st; for (int i = 0; i < n; i++) { size_t m; st.push_back (mixed_stream (5, choose (4) == 3, false, &m)); mx = std::max (mx, m); }
  tune_buffer (mx);
  for (auto &s : st) for (auto &r : s.recs) { all += r.raw; bin += r.s.bytes (); }
  int what = choose (5); bool lists = what == 2 || choose (3) == 2, copy = what == 0 || what == 3 || choose (4) == 3; vb = what == 1 || choose (4) == 3; bool copystd = what == 3; if (copystd) { lists = false; vb = choose (2); }
  if (what == 4) lists = copy = true;
  if (lists) { static const char *L[] = { "-p", "-pp", "-d", "-D", "-tg", "-T", "-s", "-g", "-S", "-G", "-O", "-z", "-L" }; args.push_back (L[choose (13)]); if (choose (2)) args.push_back (L[choose (13)]); }
  if (copy || copystd) { args.push_back ("-o"); args.push_back (copystd ? "-" : "copy"); }
  if (vb) { args.push_back ("-b"); args.push_back ("bin"); }
  for (int i = 0; i < n; i++) args.push_back (make_source (SRC_FILE, st[i].bytes, fmt ("in%d", i)).name);
  // which file meets a fault
  File *c = copy && !copystd ? &file ("copy") : NULL, *b = vb ? &file ("bin") : NULL, &so = file ("<stdout>");
  int w = choose (4); if (c && w != 1) { if (choose (3) == 2) c->data = "old content"; Str old; std::swap (old, c->data); plan_write (*c, all.size ()); c->data = old; describe_plan ("copy", *c); }
  if (b && w != 2) { plan_write (*b, bin.size ()); describe_plan ("bin", *b); }
  if (w == 3 || copystd || (!c && !b)) { plan_write (so, copystd ? all.size () : 1 + logsize (20000)); describe_plan ("stdout", so); }
  bool noopen = (c || b) && choose (10) == 9; if (noopen) { File &x = c && (!b || choose (2)) ? *c : *b; x.open_errno = choose (2) ? EACCES : EROFS; fault ("open-fail"); }
  nontrivial (); Str cl; for (auto &a : args) cl += " " + a; log ("msi%s", cl.c_str ());
  Str listing; // what it prints besides the records
  if (copystd) { std::vector<Str> a; for (size_t i = 0; i < args.size (); i++) if (args[i] == "-o") i++; else a.push_back (args[i]); listing = isolated ([&] { file ("<stdout>").wp = WritePlan (); file ("bin").wp = WritePlan (); file ("bin").open_errno = 0; return run_msi (a).out; }); }
  MsiResult r = run_msi (args);
  log ("status %d, %zu bytes on stdout", r.status, out_text ().size ());
  bool bad = (c && (c->write_failed || c->close_failed)) || (b && (b->write_failed || b->close_failed)) || so.write_failed;
  if (noopen) { NEED (r.status != 0, "write:msi-status", "msi%s ends with status 0 although a file to write cannot be opened", cl.c_str ()); return; }
  if (bad) { NEED (r.status != 0, "write:msi-status", "msi%s ends with status 0 although%s%s%s could not be stored", cl.c_str (), c && (c->write_failed || c->close_failed) ? " the -o file" : "", b && (b->write_failed || b->close_failed) ? " the -b file" : "", so.write_failed ? " standard output" : ""); return; }
  if (so.close_failed) return; // flushed and found stored before: what is left is the close at exit
  NEED (r.status == 0, "write:msi-status", "msi%s ends with status %d although everything was stored: %s", cl.c_str (), r.status, err_text ().c_str ());
  if (c) NEED (c->data == all, "write:content", "the -o file holds %zu bytes instead of %zu (or others)", c->data.size (), all.size ());
  if (copystd) // every record, in order and whole, between the lines about them
  {
    Str o = out_text (), rest; size_t p = 0;
    for (auto &s : st) for (auto &q : s.recs) { size_t z = o.find (q.raw, p); NEED (z != Str::npos, "write:content", "-o - gives %zu bytes where a record of %zu bytes is missing after byte %zu", o.size (), q.raw.size (), p); rest += o.substr (p, z - p); p = z + q.raw.size (); }
    rest += o.substr (p); NEED (rest == listing, "write:content", "-o - gives %zu bytes besides the records and %zu without -o", rest.size (), listing.size ());
  }
  if (b) NEED (b->data == bin, "write:content", "the -b file holds %zu bytes instead of %zu (or others)", b->data.size (), bin.size ());
}
