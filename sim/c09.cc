// C09: a crash while writing loses at most a tail and never fabricates records
#include "scn.h"
using namespace sim;

static std::vector<Str> s_recs;
static void collect (char *rec, int len, void *) { s_recs.push_back (Str (rec, len)); }
struct Op { MS3Record *m = NULL; MS3TraceList *l = NULL; int reclen, enc; uint32_t fl; std::vector<Str> recs; };
// something to write, and the records it makes
static Op make_op (bool v2)
{
  Op p; p.fl = MSF_FLUSHDATA | (v2 ? MSF_PACKVER2 : 0); static const int E[] = { -1, 11, 10, 3 }; p.enc = E[choose (4)];
  s_recs.clear ();
  for (;;)
  {
    p.reclen = v2 ? 128 << choose (5) : 160 + choose (900);
    GenOpt o; o.v2 = v2; o.v3 = !v2; o.zero = false; o.max_samples = choose (2) ? 200 : 2000; o.sidpool = 6; o.extras = !v2;
    int n = choose (3) ? 1 : 1 + choose (4);
    if (n == 1)
    {
      RefRec r = gen_record (o); NEED (msr3_parse (r.raw.data (), r.raw.size (), &p.m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused");
      p.m->reclen = p.reclen + (v2 ? 0 : r.extra.size ()); p.m->encoding = r.s.type == 'i' ? p.enc : -1;
      if (msr3_pack (p.m, collect, NULL, NULL, p.fl, 0) > 0) break;
      msr3_free (&p.m);
    }
    else
    {
      p.l = mstl3_init (NULL); MS3Record *m = NULL;
      for (int i = 0; i < n; i++) { RefRec r = gen_record (o); NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused"); mstl3_addmsr (p.l, m, 1, 1, 0, NULL); }
      msr3_free (&m);
      if (mstl3_pack (p.l, collect, NULL, p.reclen, p.enc, NULL, p.fl | MSF_MAINTAINMSTL, 0, NULL) > 0) break;
      mstl3_free (&p.l, 0);
    }
    s_recs.clear (); p.enc = 3;
  }
  p.recs = s_recs; return p;
}
static int64_t write_op (Op &p, const Str &name, bool over) { return p.m ? msr3_writemseed (p.m, name.c_str (), over, p.fl, 0) : mstl3_writemseed (p.l, name.c_str (), over, p.reclen, p.enc, p.fl, 0); }
static void free_op (Op &p) { msr3_free (&p.m); if (p.l) mstl3_free (&p.l, 0); }
static bool v2_like (const Str &b) { for (size_t i = 0; i + 48 <= b.size (); i++) if (v2hdr (b.data () + i)) return true; return false; }
// read a file and compare with the records that must come back
static void expect_file (const Str &bytes, const std::vector<Str> &want, bool skip, const char *what, int partial)
{
  Stream s; for (auto &r : want) { RefRec q; Str why; size_t n = decode_rec (r.data (), r.size (), q, &why); NEED (n == r.size (), "pack:invalid", "a record written is not valid: %s", why.c_str ()); s.add (q); }
  if (skip) { std::vector<int64_t> o; size_t pos = 0; for (auto &r : want) { size_t p = bytes.find (r, pos); NEED (p != Str::npos, "harness", "record not in file"); o.push_back (p); pos = p + r.size (); } s.offs = o; }
  SrcKind k = (SrcKind)choose (SRC_NKINDS); Source src = make_source (k, bytes, "after"); bool unp = !choose (2);
  ReadOut o = read_all (src, (unp ? MSF_UNPACKDATA : 0) | MSF_VALIDATECRC | (skip ? MSF_SKIPNOTDATA : 0), NULL, -1, 0);
  for (size_t i = 0; i < std::min (o.recs.size (), want.size ()); i++) { Str d = diff_got (o.recs[i], s.recs[i], s.offs[i], unp); if (!d.empty ()) { bool real = false; for (auto &w : want) if (w == o.recs[i].raw) real = true; violate (real ? "crash:lost" : "crash:fabricated", "%s: record %zu should be %s: %s", what, i, describe (s.recs[i]).c_str (), d.c_str ()); } }
  NEED (o.recs.size () <= want.size (), "crash:fabricated", "%s: %zu records are read, %zu are stored", what, o.recs.size (), want.size ());
  NEED (o.recs.size () == want.size (), "crash:lost", "%s: %zu records are read, %zu are stored, reading ends with %s", what, o.recs.size (), want.size (), codename (o.code));
  if (partial >= 0) NEED (o.code == MS_ENDOFFILE || (want.empty () && o.code == MS_NOTSEED), "crash:code", "%s: reading ends with %s", what, codename (o.code));
}

// crash of the process while a file is written, then a look at what is there; several lives of the writer
SCENARIO (C09, process)
{
  sim_setup ();
  bool v2 = choose (3) == 2; int lives = v2 ? 1 : 1 + choose (4); Str name = "archive.mseed"; std::vector<Str> stored; File *f = &file (name); size_t mx = 64; nontrivial ();
  std::vector<size_t> cuts;
  for (int life = 0; life < lives; life++)
  {
    int nop = 1 + choose (4); std::vector<Op> ops; for (int i = 0; i < nop; i++) ops.push_back (make_op (v2));
    Str all; std::vector<Str> recs; for (auto &o : ops) for (auto &r : o.recs) { all += r; recs.push_back (r); mx = std::max (mx, r.size ()); }
    Str before = f->data; bool crash = life + 1 < lives || choose (4) != 3; bool wb = life == 0 && choose (2);
    f->wp = WritePlan (); f->wp.flush_only_at_close = choose (3) == 2; f->accepted = 0;
    if (crash) f->wp.crash_at = choose (3) == 0 ? choose (all.size ()) : [&] { size_t p = 0; for (auto &r : recs) { if (choose (recs.size ()) == 0) break; p += r.size (); } if (p >= all.size ()) p = all.size () - 1; return (int64_t)std::min<size_t> (all.size () - 1, p + choose (60)); } ();
    log ("life %d: %zu records, %zu bytes%s %lld", life, recs.size (), all.size (), crash ? ", crash at" : "", (long long)f->wp.crash_at);
    size_t done = 0; bool *first = new bool (wb);
    bool died = run_until_crash ([&] { for (auto &o : ops) { int64_t rc = write_op (o, name, *first); *first = false; if (rc != (int64_t)o.recs.size ()) violate ("crash:write", "%lld of %zu records written", (long long)rc, o.recs.size ()); done += o.recs.size (); } });
    if (!died) for (auto &o : ops) free_op (o); // a dead process frees nothing
    NEED (died == crash, "harness", "crash expected");
    // what is on the disk is what was there, and a prefix of what this life wrote
    NEED (f->data.compare (0, before.size (), before) == 0, "crash:order", "bytes written before the crash of another life are changed");
    Str now = f->data.substr (before.size ()); NEED (now.size () <= all.size () && all.compare (0, now.size (), now) == 0, "crash:order", "the %zu bytes stored are not the first of those written", now.size ());
    size_t p = 0, whole = 0; for (auto &r : recs) { if (p + r.size () > now.size ()) break; p += r.size (); stored.push_back (r); whole++; }
    NEED (whole >= done, "crash:lost", "%zu records were reported written, %zu are stored", done, whole);
    log ("%zu bytes stored, %zu whole records", now.size (), whole);
    if (p < now.size ()) cuts.push_back (f->data.size ()); // a partial record is left
  }
  tune_buffer (mx);
  Str b = f->data; if (!v2 && v2_like (b)) { probe ("look-alike"); return; }
  // a partial record that happens to be completed by the bytes after it is a whole record
  { size_t k = 0; for (size_t i = 0; i < b.size () && !v2;) { RefRec r; size_t n = 0; if (i + 40 <= b.size () && !memcmp (b.data () + i, "MS\x03", 3)) n = decode_rec (b.data () + i, b.size () - i, r); if (!n) { i++; continue; } if (k >= stored.size () || b.compare (i, n, stored[k])) { probe ("completed-by-chance"); return; } k++; i += n; } }
  bool clean = cuts.empty () || (cuts.size () == 1 && cuts[0] == b.size ());
  if (clean) expect_file (b, stored, false, "after the crash", 1);
  if (!v2) expect_file (b, stored, true, "after appending, skipping non-data", 1);
  hashs (b);
}
// crash of the machine: of what was written last, sectors may be missing or blank
SCENARIO (C09, machine)
{
  sim_setup ();
  Str name = "archive.mseed"; File &f = file (name); size_t mx = 64; int nop = 1 + choose (5); std::vector<Str> recs; Str all; nontrivial ();
  for (int i = 0; i < nop; i++) { Op o = make_op (false); int64_t rc = write_op (o, name, 0); NEED (rc == (int64_t)o.recs.size (), "crash:write", "%lld of %zu", (long long)rc, o.recs.size ()); for (auto &r : o.recs) { recs.push_back (r); all += r; mx = std::max (mx, r.size ()); } free_op (o); }
  NEED (f.data == all, "crash:order", "the file holds other bytes than those written");
  Str b = all; size_t sector = 512 << (3 * choose (2)), safe = choose (b.size () + 1); // everything before `safe` had reached the disk
  size_t len = safe + choose (b.size () - safe + 1); b.resize (len); int lost = 0;
  for (size_t s = safe / sector * sector; s < len; s += sector) if (choose (2)) { size_t from = std::max (s, safe), to = std::min (len, s + sector); for (size_t i = from; i < to; i++) b[i] = 0; lost++; }
  fault ("machine-crash"); if (lost) fault ("lost-sectors"); log ("%zu of %zu bytes kept, %zu safe, %d blank sectors of %zu", len, all.size (), safe, lost, sector);
  if (choose (2)) { Op o = make_op (false); file (name).data = b; int64_t rc = write_op (o, name, 0); NEED (rc == (int64_t)o.recs.size (), "crash:write", "%lld of %zu", (long long)rc, o.recs.size ()); for (auto &r : o.recs) { recs.push_back (r); mx = std::max (mx, r.size ()); } free_op (o); b = f.data; log ("%zu records appended", o.recs.size ()); }
  tune_buffer (mx);
  if (v2_like (b)) { probe ("look-alike"); return; }
  // whole records in what is left
  std::vector<Str> have; for (size_t i = 0; i < b.size ();) { RefRec r; size_t n = 0; if (i + 40 <= b.size () && b[i] == 'M' && b[i + 1] == 'S' && b[i + 2] == 3) n = decode_rec (b.data () + i, b.size () - i, r); if (n) { have.push_back (b.substr (i, n)); i += n; } else i++; }
  for (auto &h : have) NEED (std::find (recs.begin (), recs.end (), h) != recs.end (), "harness", "unknown record");
  size_t p = 0, must = 0; for (auto &r : recs) { if (p + r.size () > safe) break; p += r.size (); must++; }
  NEED (have.size () >= must, "harness", "safe records missing");
  expect_file (b, have, true, "after the machine crash", -1);
  // without skipping: never anything else than the records stored
  Source src = make_source (SRC_FILE, b, "again"); ReadOut o = read_all (src, MSF_UNPACKDATA | MSF_VALIDATECRC, NULL, -1, 0);
  NEED (o.recs.size () <= have.size (), "crash:fabricated", "more records than stored");
  for (size_t i = 0; i < o.recs.size (); i++) NEED (o.recs[i].raw == have[i], "crash:fabricated", "record %zu is not one that was stored", i);
}
// writer that is restarted, reads what is there, and goes on where it stopped
SCENARIO (C09, resume)
{
  sim_setup ();
  Str name = "archive.mseed"; capture_logs (); int n = 2 + choose (8); std::vector<Op> ops; std::vector<Str> recs; size_t mx = 64; bool v2 = choose (3) == 2; nontrivial ();
  for (int i = 0; i < n; i++) { Op o = make_op (v2); if (o.recs.size () != 1) { free_op (o); continue; } for (auto &r : o.recs) { recs.push_back (r); mx = std::max (mx, r.size ()); } ops.push_back (o); } for (auto &o : ops) mx = std::max<size_t> (mx, o.m ? o.m->reclen : o.reclen);
  if (ops.empty ()) return;
  tune_buffer (mx); File &f = file (name); size_t at = 0; int crashes = 0;
  while (at < ops.size ())
  {
    f.wp = WritePlan (); f.accepted = 0; f.wp.flush_only_at_close = choose (2); size_t left = 0; for (size_t i = at; i < ops.size (); i++) left += recs[i].size ();
    if (crashes < 5 && choose (4)) f.wp.crash_at = choose (left);
    size_t *i = new size_t (at);
    bool died = run_until_crash ([&] { for (; *i < ops.size (); ++*i) { int64_t rc = write_op (ops[*i], name, 0); if (rc != 1) violate ("crash:write", "%lld | %s", (long long)rc, LogCapture::diag.c_str ()); } });
    if (died) crashes++;
    // restart: count complete records, cut off a partial one
    Source src; src.kind = SRC_FILE; src.name = src.path = name; MS3FileParam *fp = NULL; MS3Record *m = NULL; int rc; size_t k = 0; int64_t good = 0;
    while ((rc = ms3_readmsr_r (&fp, &m, name.c_str (), MSF_VALIDATECRC, 0)) == MS_NOERROR) { NEED (k < recs.size () && Str (m->record, m->reclen) == recs[k], "crash:fabricated", "record %zu read after the crash is not the one written", k); k++; good = fp->streampos; }
    NEED (rc == MS_ENDOFFILE || (k == 0 && rc == MS_NOTSEED), "crash:code", "after %d crashes reading ends with %s", crashes, codename (rc));
    ms3_readmsr_r (&fp, &m, NULL, 0, 0);
    NEED (k >= *i, "crash:lost", "%zu records were reported written, %zu are read", *i, k);
    log ("%s at record %zu: %zu records, %zu bytes, %lld complete", died ? "crash" : "end", *i, k, f.data.size (), (long long)good);
    f.data.resize (good); at = k;
  }
  Str all; for (auto &r : recs) all += r; NEED (f.data == all, "crash:resume", "after %d crashes the file does not hold every record once", crashes);
  for (auto &o : ops) free_op (o);
}
// the program is stopped while it copies
SCENARIO (C09, msi)
{
  sim_setup ();
  int n = 1 + choose (3); std::vector<Str> args = { "-o", "copy" }; size_t mx = 64; std::vector<Str> recs; Str all; nontrivial ();
  for (int i = 0; i < n; i++)
  {
    Stream s; int k = 1 + choose (6); for (int j = 0; j < k; j++) { GenOpt o; o.v2 = choose (3) == 2; o.v3 = !o.v2; o.max_samples = choose (2) ? 300 : 2000; RefRec r = gen_record (o); s.add (r); mx = std::max (mx, r.raw.size () + (r.fmt == 2 ? 64 : 0)); recs.push_back (r.raw); }
    all += s.bytes; args.push_back (make_source (SRC_FILE, s.bytes, fmt ("in%d", i)).name);
  }
  tune_buffer (mx); int64_t at = choose (all.size ()); bool buf = choose (2);
  Str got = isolated ([&] { File &f = file ("copy"); f.wp.crash_at = at; f.wp.flush_only_at_close = buf; bool died = run_until_crash ([&] { run_msi (args); }); NEED (died, "harness", "no crash"); return f.data; });
  log ("copy of %zu records, %zu bytes, crash at %lld: %zu bytes stored", recs.size (), all.size (), (long long)at, got.size ());
  NEED (got.size () <= all.size () && all.compare (0, got.size (), got) == 0, "crash:order", "the %zu bytes stored are not the first of the copy", got.size ());
  // cut to where the remains can only be a partial record
  std::vector<Str> have; size_t p = 0, i = 0; for (; i < recs.size () && p + recs[i].size () <= got.size (); i++) { p += recs[i].size (); have.push_back (recs[i]); }
  if (i < recs.size () && got.size () > p) { RefRec r; decode_rec (recs[i].data (), recs[i].size (), r); r.raw = recs[i]; got.resize (p + safe_cut (r, got.size () - p)); }
  expect_file (got, have, false, "partial copy", 1);
  Str out = isolated ([&] { file ("copy").data = got; file ("copy").wp = WritePlan (); MsiResult r = run_msi ({ "-o", "copy2", "copy" }); if (!have.empty ()) NEED (r.status == 0, "crash:code", "reading the partial copy ends with status %d", r.status); return has_file ("copy2") ? file ("copy2").data : Str (); });
  NEED (out == got.substr (0, p), "crash:fabricated", "copying the partial copy gives %zu bytes instead of %zu (or others)", out.size (), p);
}
