// C03: a failed read is never reported as a clean end of data
#include "scn.h"
#include <errno.h>
using namespace sim;

// position of a fault, often near record or buffer boundaries
static int64_t fault_pos (const Stream &s)
{
  int64_t L = s.bytes.size ();
  switch (choose (5))
  {
  case 0: return s.offs[choose (s.offs.size ())];
  case 1: return std::min<int64_t> (L, s.offs[choose (s.offs.size ())] + 1 + choose (60));
  case 2: return L - std::min<int64_t> (L, choose (64));
  case 3: return std::min<int64_t> (L, libmseed_sim_maxreclen / (1 + choose (3)) + choose (64));
  default: return choose (L + 1);
  }
}
static int pick_errno () { static const int e[] = { EIO, EISDIR, ENOMEM, EBADF, ESTALE, EINTR }; return e[choose (6)]; }

static void expect_prefix (const ReadOut &o, const Stream &s, bool unp, const char *what, bool checkoff = true)
{
  NEED (o.recs.size () <= s.recs.size (), "fault:extra", "%s: more records than the source has", what);
  for (size_t i = 0; i < o.recs.size (); i++)
  {
    Str d = diff_got (o.recs[i], s.recs[i], s.offs[i], unp, checkoff);
    NEED (d.empty (), "fault:not-a-prefix", "%s: record %zu (%s) before the failure: %s", what, i, describe (s.recs[i]).c_str (), d.c_str ());
  }
}

// disk errors at any byte, while records are read one by one
SCENARIO (C03, read_error)
{
  sim_setup ();
  size_t mx; Stream s = mixed_stream (10, choose (8) == 7, false, &mx); tune_buffer (mx);
  SrcKind k = (SrcKind)choose (3); // file, stdin, fd
  Source src = make_source (k, s.bytes, any_name ("bad.mseed"));
  File &f = file (src.name);
  f.rp.fail_at = fault_pos (s); f.rp.err = pick_errno (); f.rp.transient = choose (3) == 2;
  bool unp = choose (2); uint32_t flags = (unp ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_VALIDATECRC : 0) | (choose (3) == 2 ? MSF_SKIPNOTDATA : 0);
  int api = choose (3) == 2 && k != SRC_FD ? 1 : 0;
  nontrivial ();
  log ("%zu records, %zu bytes via %s, read fails at %lld%s, errno %d, buffer %d, flags 0x%x", s.recs.size (), s.bytes.size (), kindname (k), (long long)f.rp.fail_at, f.rp.transient ? " once" : "", f.rp.err, libmseed_sim_maxreclen, flags);
  ReadOut o = read_all (src, flags, NULL, -1, api);
  expect_prefix (o, s, unp, kindname (k), api == 0);
  if (!f.read_failed) harness_error ("the read fault was not reached");
  if (o.recs.size () == s.recs.size () && f.rp.transient && o.code == MS_ENDOFFILE) { probe ("transient-survived"); return; }
  NEED (o.code < 0, "fault:clean-end", "%s failed to read at byte %lld of %zu: %zu of %zu records and %s", kindname (k), (long long)f.rp.fail_at, s.bytes.size (), o.recs.size (), s.recs.size (), codename (o.code));
}

// the same failure met again by a caller that keeps trying
SCENARIO (C03, keep_trying)
{
  sim_setup ();
  size_t mx; Stream s = mixed_stream (8, false, false, &mx); tune_buffer (mx);
  SrcKind k = choose (2) ? SRC_URL : SRC_FILE; Source src = make_source (k, s.bytes, any_name ("bad.mseed"));
  if (k == SRC_URL) { Server &v = server (src.path); v.reset_at = choose (s.bytes.size ()); v.trailer_range = false; }
  else { File &f = file (src.name); f.rp.fail_at = fault_pos (s); f.rp.err = pick_errno (); }
  MS3FileParam *fp = NULL; MS3Record *m = NULL; size_t at = 0; int errors = 0; nontrivial ();
  uint32_t flags = MSF_UNPACKDATA | (choose (2) ? MSF_SKIPNOTDATA : 0);
  log ("%zu records via %s", s.recs.size (), kindname (k));
  for (int i = 0; i < 60 && errors < 4; i++)
  {
    int rc = ms3_readmsr_r (&fp, &m, src.path.c_str (), flags, 0);
    log ("read: %s", codename (rc));
    if (rc == MS_NOERROR)
    {
      NEED (at < s.recs.size (), "fault:extra", "more records than the source has");
      Str d = diff_got (capture (m, fp->streampos - m->reclen), s.recs[at], s.offs[at], true);
      NEED (d.empty (), "fault:not-a-prefix", "record %zu after %d errors: %s", at, errors, d.c_str ()); at++;
    }
    else { NEED (rc < 0, "fault:clean-end", "after a failed read (%d errors so far, %zu of %zu records) the reader reports %s", errors, at, s.recs.size (), codename (rc)); errors++; }
  }
  NEED (errors, "fault:none", "no failure reported");
  ms3_readmsr_r (&fp, &m, NULL, 0, 0);
}

// network failures in every phase
SCENARIO (C03, net_error)
{
  sim_setup ();
  size_t mx; Stream s = mixed_stream (10, choose (8) == 7, false, &mx); tune_buffer (mx);
  Source src = make_source (SRC_URL, s.bytes, "net"); Server &v = server (src.path);
  uint32_t flags = MSF_UNPACKDATA | (choose (2) ? MSF_VALIDATECRC : 0) | (choose (3) == 2 ? MSF_SKIPNOTDATA : 0);
  bool ranged = choose (3) == 2; size_t from = 0;
  if (ranged) { from = choose (s.recs.size ()); if (from) { src.path += fmt ("@%lld-", (long long)s.offs[from]); flags |= MSF_PNAMERANGE; } }
  int kind = choose (5); int64_t left = s.bytes.size () - s.offs[from];
  if (kind <= 1) { v.reset_at = kind == 0 ? choose (left) : left - 1 - std::min<int64_t> (left - 1, choose (64)); }
  else if (kind == 2) v.refuse = true;
  else if (kind == 4) net_fail_at (choose (2) ? choose (10) : logsize (400), choose (2) ? 1 : 1000000);
  else { static const int c[] = { 404, 500, 503, 403, 401, 410, 416, 429, 502, 504 }; v.status = c[choose (10)]; }
  nontrivial ();
  log ("%zu records, %zu bytes from %s: %s %lld", s.recs.size (), s.bytes.size (), src.path.c_str (), kind <= 1 ? "reset at" : kind == 2 ? "refused" : kind == 4 ? "libcurl out of memory" : "status", (long long)(kind <= 1 ? v.reset_at : v.status));
  int api = choose (4) == 3 ? 1 : 0;
  if (choose (4) == 3)
  {
    MS3TraceList *l = NULL;
    int rc = ms3_readtracelist (&l, src.path.c_str (), NULL, 0, flags | (choose (2) ? MSF_RECORDLIST : 0), 0);
    if (kind == 4 && !net_mem_failed ()) { mstl3_free (&l, 0); return; }
    NEED (rc < 0, "fault:tracelist-clean", "a failed transfer read into a trace list gives %s", codename (rc));
    mstl3_free (&l, 0);
    return;
  }
  ReadOut o = read_all (src, flags, NULL, -1, api);
  for (size_t i = 0; i < o.recs.size (); i++)
  {
    NEED (from + i < s.recs.size (), "fault:extra", "more records than the source has");
    Str d = diff_got (o.recs[i], s.recs[from + i], s.offs[from + i], true, api == 0);
    NEED (d.empty (), "fault:not-a-prefix", "record %zu before the failure: %s", i, d.c_str ());
  }
  if (kind == 4 && !net_mem_failed ()) return;
  NEED (o.code < 0, "fault:clean-end", "a failed transfer (%s at %lld) gives %zu of %zu records and %s", kind <= 1 ? "reset" : kind == 2 ? "refused" : kind == 4 ? "libcurl out of memory" : "status", (long long)(kind <= 1 ? v.reset_at : v.status), o.recs.size (), s.recs.size () - from, codename (o.code));
}

// failing to open or to seek, also when tried again
SCENARIO (C03, open_error)
{
  sim_setup ();
  size_t mx; Stream s = mixed_stream (5, false, false, &mx); tune_buffer (mx);
  int kind = choose (4); nontrivial ();
  Str path = "gone.mseed"; uint32_t flags = MSF_PNAMERANGE; size_t from = 0;
  if (kind == 1) { File &f = file (path); f.data = s.bytes; static const int e[] = { EACCES, EMFILE, ENFILE, EIO, ENOMEM, ELOOP }; f.open_errno = e[choose (6)]; fault ("open-fail"); }
  else if (kind == 2)
  {
    File &f = file (path); f.data = s.bytes; f.seek_fails = true; if (s.recs.size () < 2) return;
    from = 1 + choose (s.recs.size () - 1); path += fmt ("@%lld-", (long long)s.offs[from]);
  }
  else if (kind == 3)
  {
    MS3FileParam *fp = ms3_mstl_init_fd (choose (2) ? -1 : 9999);
    NEED (!fp, "fault:open", "ms3_mstl_init_fd accepts a descriptor that is not open");
    return;
  }
  else fault ("file-missing");
  log ("open of %s fails (%d)", path.c_str (), kind);
  if (choose (3) == 2)
  {
    MS3TraceList *l = NULL; int rc = ms3_readtracelist (&l, path.c_str (), NULL, 0, flags, 0);
    NEED (rc < 0, "fault:tracelist-clean", "a source that cannot be opened gives %s", codename (rc)); mstl3_free (&l, 0); return;
  }
  MS3FileParam *fp = NULL; MS3Record *m = NULL; int tries = 1 + choose (3);
  for (int i = 0; i < tries; i++)
  {
    int rc = ms3_readmsr_r (&fp, &m, path.c_str (), flags, 0);
    NEED (rc < 0 && !m, "fault:open", "try %d on a source that cannot be opened or positioned gives %s", i, codename (rc));
  }
  // once it can be opened the same reader works
  Str n = "gone.mseed"; File &f = file (n); f.data = s.bytes; f.open_errno = 0; f.seek_fails = false;
  if (choose (2))
  {
    for (size_t i = from; i < s.recs.size (); i++)
    {
      int rc = ms3_readmsr_r (&fp, &m, path.c_str (), flags | MSF_UNPACKDATA, 0);
      NEED (rc == MS_NOERROR, "fault:open-retry", "after the cause is gone the reader gives %s", codename (rc));
      Str d = diff_got (capture (m, fp->streampos - m->reclen), s.recs[i], s.offs[i], true);
      NEED (d.empty (), "fault:open-retry", "after the cause is gone record %zu: %s", i, d.c_str ());
    }
    int rc = ms3_readmsr_r (&fp, &m, path.c_str (), flags | MSF_UNPACKDATA, 0);
    NEED (rc == MS_ENDOFFILE, "fault:open-retry", "ends with %s", codename (rc));
  }
  ms3_readmsr_r (&fp, &m, NULL, 0, 0);
}

// reading everything into a trace list
SCENARIO (C03, tracelist)
{
  sim_setup ();
  size_t mx; Stream s = mixed_stream (8, false, false, &mx); tune_buffer (mx);
  Source src = make_source (choose (4) == 3 ? SRC_STDIN : SRC_FILE, s.bytes, any_name ("tl.mseed")); File &f = file (src.name);
  f.rp.fail_at = fault_pos (s); f.rp.err = pick_errno (); nontrivial ();
  uint32_t flags = MSF_UNPACKDATA | (choose (2) ? MSF_RECORDLIST : 0) | (choose (3) == 2 ? MSF_SKIPNOTDATA : 0);
  log ("%zu records, read fails at %lld of %zu", s.recs.size (), (long long)f.rp.fail_at, s.bytes.size ());
  MS3TraceList *l = NULL; int rc;
  if (choose (3) == 2) rc = ms3_readtracelist_timewin (&l, src.path.c_str (), NULL, NSTUNSET, NSTUNSET, 0, flags, 0);
  else rc = ms3_readtracelist (&l, src.path.c_str (), NULL, 0, flags, 0);
  NEED (rc < 0, "fault:tracelist-clean", "reading fails at byte %lld of %zu but the trace list is returned with %s", (long long)f.rp.fail_at, s.bytes.size (), codename (rc));
  // what is in the list is a prefix
  std::map<Str, int64_t> have; int64_t nrec = 0; if (l) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) { have[id->sid] += g->numsamples; nrec += g->recordlist ? g->recordlist->recordcnt : 0; }
  std::map<Str, int64_t> want; bool ok = false;
  for (size_t i = 0; i <= s.recs.size () && !ok; i++)
  {
    auto h = have; for (auto j = h.begin (); j != h.end ();) if (!j->second) j = h.erase (j); else ++j;
    auto w = want; for (auto j = w.begin (); j != w.end ();) if (!j->second) j = w.erase (j); else ++j;
    if (h == w && (!(flags & MSF_RECORDLIST) || nrec <= (int64_t)i)) ok = true;
    if (i < s.recs.size ()) want[s.recs[i].sid] += s.recs[i].nsamp ();
  }
  NEED (ok, "fault:not-a-prefix", "the trace list does not hold the records of any prefix of the source");
  mstl3_free (&l, 0);
}

// the program: any unreadable input means a non-zero status, and the copy holds exact records only
SCENARIO (C03, msi)
{
  sim_setup ();
  int n = 1 + choose (3), bad = choose (n); std::vector<Stream> st; std::vector<Source> so; size_t mx = 64;
  for (int i = 0; i < n; i++) { size_t m; st.push_back (mixed_stream (5, false, false, &m)); mx = std::max (mx, m); }
  tune_buffer (mx);
  std::vector<Str> args = { "-O" }; static const char *more[] = { "-p", "-s", "-tg", "-T", "-d", "-snd", "-g", "-tt", "1", "-L" };
  int opt = choose (10); if (opt != 8) args.push_back (more[opt]); else if (opt == 7) {}
  if (opt == 7) args.push_back ("1");
  bool copy = choose (2); if (copy) { args.push_back ("-o"); args.push_back ("copy"); }
  bool usestdin = false; int kind = choose (4);
  for (int i = 0; i < n; i++)
  {
    SrcKind k = SRC_FILE; if (i == bad && kind == 2) k = SRC_URL; else if (choose (5) == 4) k = SRC_URL; else if (!usestdin && choose (5) == 4) { k = SRC_STDIN; usestdin = true; }
    Source s = make_source (k, st[i].bytes, fmt ("in%d", i)); so.push_back (s);
    if (s.path.compare (0, 7, "file://") == 0) s.path = s.name;
    if (i == bad)
    {
      if (k == SRC_URL) { Server &v = server (s.path); if (choose (3) == 0) v.refuse = true; else v.reset_at = choose (st[i].bytes.size ()); }
      else if (k == SRC_FILE && kind == 3) { if (choose (2)) rm_file (s.name); else file (s.name).open_errno = EACCES; fault ("open-fail"); }
      else { File &f = file (s.name); f.rp.fail_at = fault_pos (st[i]); f.rp.err = pick_errno (); }
    }
    args.push_back (s.path);
  }
  nontrivial (); Str cl; for (auto &a : args) cl += " " + a; log ("msi%s (input %d fails)", cl.c_str (), bad);
  MsiResult r = run_msi (args);
  NEED (r.status != 0, "fault:msi-status", "msi%s ends with status 0 although input %d could not be read", cl.c_str (), bad);
  if (copy)
  {
    Str all = has_file ("copy") ? file ("copy").data : ""; size_t pos = 0;
    for (int i = 0; i < n; i++)
      for (size_t k = 0; k < st[i].recs.size () && pos < all.size (); k++)
      {
        const Str &raw = st[i].recs[k].raw;
        if (all.compare (pos, raw.size (), raw) == 0) pos += raw.size ();
        else { NEED (i >= bad, "fault:copy", "the copy lacks record %zu of input %d, read before the failing one", k, i); break; }
      }
    NEED (pos == all.size (), "fault:copy", "the copy holds other bytes than a prefix of the inputs' records, from byte %zu of %zu", pos, all.size ());
  }
}
