// C15: deferred unpacking gives the same samples as immediate unpacking
#include "scn.h"
using namespace sim;
extern "C" { FILE *sim_fopen (const char *path, const char *mode); int sim_fclose (FILE *fp); }

// where the records are kept until they are needed
struct Store { std::vector<Str> names; std::vector<FILE *> open; std::vector<std::pair<char *, size_t>> bufs; bool url = false; };
struct Def { MS3TraceList *l = NULL; Store st; };
static char *keep (const Str &s) { char *p = (char *)user_alloc (s.size () + 1); memcpy (p, s.c_str (), s.size () + 1); return p; }
static void add_now (MS3TraceList *l, const std::vector<RefRec> &recs, const std::vector<size_t> &order, bool split, const MS3Tolerance *t)
{
  MS3Record *m = NULL;
  for (size_t i : order) { NEED (msr3_parse (recs[i].raw.data (), recs[i].raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deferred:parse", "record refused"); NEED (mstl3_addmsr (l, m, split, 1, 0, t), "deferred:add", "record refused"); }
  msr3_free (&m);
}
static Def build_deferred (const std::vector<RefRec> &recs, const std::vector<size_t> &order, bool split, const MS3Tolerance *t, int only = -1, bool mayfar = false)
{
  Def d; d.l = mstl3_init (NULL); size_t i = 0; int part = 0; uint32_t fl = MSF_RECORDLIST;
  while (i < order.size ())
  {
    int way = only >= 0 ? only : choose (6); int64_t far = 0;
    // the records may lie far into a large file
    if (mayfar && way >= 2 && choose (6) == 5) { static const int64_t F[] = { 0x7ffffff0LL, 0x80000000LL, 0xfffffff0LL, 0x100000000LL, 5000000000LL, 9000000000000LL }; far = F[choose (6)] + choose (64); probe ("far-into-a-file"); }
    size_t n = 1 + choose (order.size () - i); Str b; std::vector<int64_t> at; Str pre;
    if (way >= 2 && choose (3) == 2) pre = recs[order[choose (order.size ())]].raw;
    // records that a selection passes over lie between the others
    MS3Selections *sel = NULL; bool skip = way == 2 && choose (2); int64_t lo = INT64_MAX, hi = INT64_MIN;
    if (skip) { for (auto &r : recs) { lo = std::min (lo, r.start); hi = std::max (hi, r.end ()); } fault ("record-passed-over"); }
    auto decoy = [&] { while (skip && choose (2)) { RefRec q = recs[order[choose (order.size ())]]; if (choose (2) || hi / 2 - lo / 2 > 150 * 86400000000000LL) { q.sid = "FDSN:QQ_DECOY__X_Y_Z"; q.net = "QQ"; q.sta = "DECOY"; q.loc = ""; q.chan = "XYZ"; } else { int64_t by = hi - lo + 86400000000000LL; q.start += by - by % 1000000; } q.raw.clear (); if (build (q)) b += q.raw; } };
    b = pre; decoy (); for (size_t k = 0; k < n; k++) { at.push_back (b.size ()); b += recs[order[i + k]].raw; decoy (); }
    if (skip) for (auto &r : recs) NEED (ms3_addselect (&sel, r.sid.c_str (), choose (2) ? NSTUNSET : lo, hi + 1000000000, 0) == 0, "deferred:select", "selection refused");
    if (way == 0) { const char *p = ro_copy (b); NEED (mstl3_readbuffer (&d.l, p, b.size (), split, fl, t, 0) == (int64_t)n, "deferred:count", "reading a buffer of %zu records", n); }
    else if (way == 1 || way >= 3)
    { // the caller says where each record is: in memory, an open stream or a named file
      Str name = fmt ("part%d", part++); make_source (SRC_FILE, b, name); file (name).hole = far; FILE *fp = NULL; char *fn = keep (name); char *buf = NULL; MS3Record *m = NULL;
      if (way == 3) { fp = sim_fopen (name.c_str (), "r"); NEED (fp, "deferred:open", "cannot open"); d.st.open.push_back (fp); d.st.names.push_back (name); } else if (way == 1) { buf = (char *)ro_copy (b); } else d.st.names.push_back (name);
      for (size_t k = 0; k < n; k++)
      {
        const RefRec &r = recs[order[i + k]]; NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, 0, 0) == 0, "deferred:parse", "record refused"); MS3RecordPtr *p = NULL; uint32_t off, len;
        NEED (mstl3_addmsr_recordptr (d.l, m, &p, split, 1, 0, t) && p, "deferred:add", "record refused"); NEED (msr3_data_bounds (m, &off, &len) == 0, "deferred:bounds", "no data bounds");
        p->dataoffset = off; if (way == 1) { p->bufferptr = buf + at[k]; } else { if (fp) p->fileptr = fp; else p->filename = fn; p->fileoffset = far + at[k]; }
      }
      msr3_free (&m);
    }
    else
    {
      Str name = fmt ("part%d", part++); Str body = b; Str path = name; bool junk = false;
      if (choose (3) == 2) { body += Str (1 + choose (200), 'j'); junk = true; }
      make_source (SRC_FILE, body, name); file (name).hole = far; if (choose (3) == 2) path = "file://" + name;
      uint32_t f = fl; if (junk || pre.size () || far || choose (4) == 3) { f |= MSF_PNAMERANGE; path += fmt ("@%lld-%lld", (long long)(far + pre.size ()), (long long)(far + b.size () - 1)); }
      d.st.names.push_back (name);
      int rc = sel || choose (2) ? ms3_readtracelist_selection (&d.l, keep (path), t, sel, split, f, 0) : ms3_readtracelist (&d.l, keep (path), t, split, f, 0); if (sel) ms3_freeselections (sel); NEED (rc == MS_NOERROR, "deferred:read", "reading %s into a list ends with %s", path.c_str (), codename (rc));
    }
    i += n;
  }
  return d;
}
static void finish (Def &d) { mstl3_free (&d.l, 0); for (auto f : d.st.open) sim_fclose (f); }
struct Case { std::vector<RefRec> recs; std::vector<size_t> order; Tol tol; bool split; Want want; std::map<Str, int> maxver; };
static void make_case (Case &c, int nchan, int maxrec)
{
  pick_tol (c.tol); c.split = choose (2); build_case (c.recs, c.want, c.maxver, c.tol, c.split, nchan, maxrec, choose (2));
  // the records of one series may be encoded differently
  for (auto &r : c.recs) if (r.fmt == 3 && r.s.type == 'i' && choose (3) == 2) { static const int E[] = { 3, 10, 11 }; RefRec q = r; q.enc = E[choose (3)]; q.raw.clear (); q.steim_style = choose (3); if (build (q) && q.s.bytes () == r.s.bytes ()) r = q; }
  size_t mx = 64; for (auto &r : c.recs) mx = std::max (mx, r.raw.size () + 24); tune_buffer (mx); c.order = permutation (c.recs.size ());
}
// one segment of each list side by side
static void each (MS3TraceList *a, MS3TraceList *b, const std::function<void (MS3TraceID *, MS3TraceSeg *, MS3TraceSeg *)> &f)
{
  MS3TraceID *x = a->traces.next[0], *y = b->traces.next[0];
  for (; x && y; x = x->next[0], y = y->next[0])
  {
    NEED (!strcmp (x->sid, y->sid) && x->pubversion == y->pubversion, "deferred:list", "the lists differ: %s and %s", x->sid, y->sid); MS3TraceSeg *g = x->first, *h = y->first;
    for (; g && h; g = g->next, h = h->next) { NEED (g->starttime == h->starttime && g->endtime == h->endtime && g->samplecnt == h->samplecnt, "deferred:list", "segments of %s differ with and without unpacking: %lld..%lld and %lld..%lld", x->sid, (long long)g->starttime, (long long)g->endtime, (long long)h->starttime, (long long)h->endtime); f (x, g, h); }
    NEED (!g && !h, "deferred:list", "%s has other segments with and without unpacking", x->sid);
  }
  NEED (!x && !y, "deferred:list", "other entries with and without unpacking");
}
static int64_t unpack_checked (MS3TraceID *id, MS3TraceSeg *g, MS3TraceSeg *now, int mode, const char *what)
{
  size_t need = now->numsamples * (now->numsamples ? ms_samplesize (now->sampletype) : 0); Str before = seg_state (g);
  if (mode == 0)
  {
    int64_t c = mstl3_unpack_recordlist (id, g, NULL, 0, 0);
    NEED (c == g->samplecnt, "deferred:count", "%s: unpacking %s gives %lld of %lld samples", what, id->sid, (long long)c, (long long)g->samplecnt);
    NEED (g->numsamples == now->numsamples && (!need || (g->sampletype == now->sampletype && g->datasize >= need && !memcmp (g->datasamples, now->datasamples, need))), "deferred:samples", "%s: the samples of %s differ from those of immediate unpacking", what, id->sid);
    Str full = seg_state (g); c = mstl3_unpack_recordlist (id, g, NULL, 0, 0); NEED (g->datasamples == NULL || (c == -1 && seg_state (g) == full), "deferred:twice", "%s: unpacking %s again gives %lld", what, id->sid, (long long)c);
    return c;
  }
  size_t extra = mode == 2 ? choose (64) : 0; char *buf = (char *)user_alloc (need + extra + 1); memset (buf, 0x5a, need + extra + 1);
  int64_t c = mstl3_unpack_recordlist (id, g, buf, need + extra, 0);
  NEED (c == g->samplecnt, "deferred:count", "%s: unpacking %s to a buffer gives %lld of %lld samples", what, id->sid, (long long)c, (long long)g->samplecnt);
  NEED (!need || !memcmp (buf, now->datasamples, need), "deferred:samples", "%s: the samples of %s in the caller's buffer differ from those of immediate unpacking", what, id->sid);
  for (size_t k = need; k < need + extra + 1; k++) NEED (buf[k] == 0x5a, "deferred:overrun", "%s: byte %zu of the buffer changed, %zu are needed", what, k, need);
  NEED (seg_state (g) == before && (!need || g->sampletype == now->sampletype), "deferred:state", "%s: unpacking %s to the caller's buffer changes the segment", what, id->sid);
  user_free (buf); return c;
}
SCENARIO (C15, same)
{
  sim_setup (); Case c; make_case (c, 1 + choose (4), 8); nontrivial ();
  MS3TraceList *now = mstl3_init (NULL); add_now (now, c.recs, c.order, c.split, c.tol.get ());
  Def d = build_deferred (c.recs, c.order, c.split, c.tol.get (), -1, true); check_list (d.l, c.split, "deferred");
  bool later = choose (2); log ("%zu records", c.recs.size ());
  std::vector<std::function<void ()>> jobs;
  each (d.l, now, [&] (MS3TraceID *id, MS3TraceSeg *g, MS3TraceSeg *h) {
    size_t need = h->numsamples * (h->numsamples ? ms_samplesize (h->sampletype) : 0); int mode = choose (3);
    jobs.push_back ([=] {
      if (need && choose (3) == 2)
      { // a buffer too small is refused untouched
        size_t have = choose (need); char *b = (char *)user_alloc (have + 1); memset (b, 0x33, have + 1); Str before = seg_state (g); int64_t r = mstl3_unpack_recordlist (id, g, b, have, 0);
        NEED (r == -1 && seg_state (g) == before, "deferred:small", "a buffer of %zu bytes where %zu are needed gives %lld", have, need, (long long)r); for (size_t k = 0; k <= have; k++) NEED (b[k] == 0x33, "deferred:small", "a buffer of %zu bytes that is too small was written to", have); user_free (b);
      }
      if (choose (2)) unpack_checked (id, g, h, 1 + choose (2), "first");
      unpack_checked (id, g, h, mode, "then"); if (mode && choose (2)) unpack_checked (id, g, h, 0, "last");
    });
    if (!later) { jobs.back () (); jobs.pop_back (); }
  });
  while (jobs.size ()) { size_t k = choose (jobs.size ()); jobs[k] (); jobs.erase (jobs.begin () + k); }
  check_list (d.l, c.split, "unpacked"); int fs = open_streams (); NEED (fs == (int)d.st.open.size (), "deferred:streams", "%d streams are open where the caller has %zu", fs, d.st.open.size ());
  finish (d); mstl3_free (&now, 0);
}
// the store fails, and may come back
SCENARIO (C15, faults)
{
  sim_setup (); Case c; make_case (c, 1 + choose (3), 8); nontrivial ();
  MS3TraceList *now = mstl3_init (NULL); add_now (now, c.recs, c.order, c.split, c.tol.get ());
  Def d = build_deferred (c.recs, c.order, c.split, c.tol.get (), choose (3) ? 2 + choose (4) : -1);
  if (d.st.names.empty ()) { finish (d); mstl3_free (&now, 0); return; }
  std::map<Str, File> saved; for (auto &n : d.st.names) saved[n] = file (n);
  for (int round = 0; round < 3; round++)
  {
    Str n = pick (d.st.names); File &f = file (n); int what = choose (7);
    switch (what)
    {
    case 0: f.open_errno = choose (2) ? EACCES : choose (2) ? EMFILE : ENOENT; fault ("open-fail"); break;
    case 1: f.data.resize (choose (f.data.size () + 1)); fault ("truncated"); break;
    case 2: f.rp.fail_at = choose (f.data.size () + 1); f.rp.err = EIO; f.rp.transient = false; fault ("read-error"); break;
    case 3: f.seek_fails = true; fault ("seek-fail"); break;
    case 4: f.data.erase (0, choose (f.data.size () + 1)); fault ("shifted"); break;
    case 5: for (auto &x : f.data) x = 0; fault ("blanked"); break;
    default: f.data.clear (); fault ("emptied");
    }
    log ("%s: %d", n.c_str (), what);
    each (d.l, now, [&] (MS3TraceID *id, MS3TraceSeg *g, MS3TraceSeg *h) {
      if (g->datasamples) return; size_t need = h->numsamples * (h->numsamples ? ms_samplesize (h->sampletype) : 0); bool own = choose (2); char *b = own ? (char *)user_alloc (need + 16) : NULL; if (b) memset (b, 0x44, need + 16);
      Str before = seg_state (g); char bt = g->sampletype; int64_t r = mstl3_unpack_recordlist (id, g, b, need, 0);
      log ("%s with faults: %lld", id->sid, (long long)r);
      if (b) for (size_t k = need; k < need + 16; k++) NEED (b[k] == 0x44, "deferred:overrun", "byte %zu of a buffer of %zu changed", k, need);
      if (r < 0) NEED (seg_state (g) == before && g->sampletype == bt && !g->datasamples, "deferred:failure", "a failed unpacking changes the segment");
      else
      {
        NEED (r == g->samplecnt, "deferred:partial", "%lld of %lld samples unpacked without an error", (long long)r, (long long)g->samplecnt);
        if (what != 4 && what != 5) NEED (!need || !memcmp (b ? b : g->datasamples, h->datasamples, need), "deferred:samples", "samples of %s unpacked from a failing file without an error differ", id->sid);
        if (!b) { libmseed_memory.free (g->datasamples); g->datasamples = NULL; g->numsamples = 0; g->datasize = 0; } // try again below
      }
      if (b) user_free (b);
    });
    int fs = open_streams (); NEED (fs == (int)d.st.open.size (), "deferred:streams", "%d streams are open where the caller has %zu", fs, d.st.open.size ());
    f.data = saved[n].data; f.open_errno = 0; f.rp = saved[n].rp; f.seek_fails = false; for (auto fp : d.st.open) clearerr (fp);
    if (choose (2)) each (d.l, now, [&] (MS3TraceID *id, MS3TraceSeg *g, MS3TraceSeg *h) { if (!g->datasamples && choose (3)) unpack_checked (id, g, h, choose (3), "after the faults"); });
  }
  each (d.l, now, [&] (MS3TraceID *id, MS3TraceSeg *g, MS3TraceSeg *h) { if (!g->datasamples) unpack_checked (id, g, h, choose (3), "after the faults"); });
  finish (d); mstl3_free (&now, 0);
}
// record lists of mixed and adopted records, without samples, in any order of arrival
SCENARIO (C15, anything)
{
  sim_setup (); size_t mx; Stream s = mixed_stream (12, choose (5) == 4, false, &mx); tune_buffer (mx); int split = choose (2); nontrivial ();
  uint32_t both = choose (2) ? MSF_UNPACKDATA : 0; Source a = make_source (SRC_FILE, s.bytes, "in"); MS3TraceList *now = NULL, *l = NULL;
  NEED (ms3_readtracelist (&now, a.path.c_str (), NULL, split, MSF_UNPACKDATA, 0) == MS_NOERROR, "deferred:read", "list not read");
  char *path = keep (a.path); NEED (ms3_readtracelist (&l, path, NULL, split, MSF_RECORDLIST | both, 0) == MS_NOERROR, "deferred:read", "list not read");
  each (l, now, [&] (MS3TraceID *id, MS3TraceSeg *g, MS3TraceSeg *h) {
    if (both) { bool had = g->datasamples; int64_t r = mstl3_unpack_recordlist (id, g, NULL, 0, 0); NEED (!had || r == -1, "deferred:twice", "unpacking a segment that has its samples gives %lld", (long long)r); size_t need = g->numsamples * (g->numsamples ? ms_samplesize (g->sampletype) : 0); Str b (need + 1, 0); if (need) { r = mstl3_unpack_recordlist (id, g, &b[0], need, 0); NEED (r == g->samplecnt && !memcmp (b.data (), g->datasamples, need), "deferred:samples", "samples of %s unpacked again differ (%lld)", id->sid, (long long)r); } return; }
    unpack_checked (id, g, h, choose (3), "any records");
  });
  mstl3_free (&l, 0); mstl3_free (&now, 0);
}
// records without samples among those of a series: they take a sample's place in time and bring no sample type
SCENARIO (C15, markers)
{
  sim_setup (); int split = choose (2); nontrivial (); Stream s; RefRec t; t.fmt = choose (3) == 2 ? 2 : 3; t.sid = sid_for (choose (40), &t); t.pubver = 1 + choose (4);
  static const int encs[] = { 3, 11, 10, 4, 5, 1, 0 }; t.enc = encs[choose (7)]; t.rate = choose (2) ? 1 : 20; if (t.fmt == 2) { set_rate2 (t, t.rate); t.be = choose (2); }
  int64_t at = some_time (2, cal2ns (2020, 1 + choose (100), 3, 0, 0, 0)); int n = 2 + choose (6), empty = 0;
  for (int i = 0; i < n; i++)
  {
    RefRec x = t; bool none = choose (2);
    if (none) { x.enc = choose (3) ? 0 : encs[choose (7)]; }
    size_t k = none ? 0 : 1 + choose (60); Samples v = gen_samples (api_sampletype (x.enc), k, choose (6)); RefRec r = make_piece (x, at, v); if (none) empty++;
    if (i && choose (6) == 5) { r.start += 3600000000000LL; r.raw.clear (); if (!build (r)) continue; at = r.start; }
    s.add (r); at += (int64_t)(none ? 1 : k) * r.period ();
  }
  if (empty) probe ("records-without-samples");
  size_t mx = 64; for (auto &r : s.recs) mx = std::max (mx, r.raw.size () + 24); tune_buffer (mx); std::vector<size_t> order = permutation (s.recs.size ()); Stream o; for (size_t i : order) o.add (s.recs[i]);
  Source a = make_source (SRC_FILE, o.bytes, "in"); MS3TraceList *now = NULL, *l = NULL;
  NEED (ms3_readtracelist (&now, a.path.c_str (), NULL, split, MSF_UNPACKDATA, 0) == MS_NOERROR, "deferred:read", "list not read");
  NEED (ms3_readtracelist (&l, keep (a.path), NULL, split, MSF_RECORDLIST, 0) == MS_NOERROR, "deferred:read", "list not read");
  each (l, now, [&] (MS3TraceID *id, MS3TraceSeg *g, MS3TraceSeg *h) { unpack_checked (id, g, h, choose (3), "with empty records"); });
  mstl3_free (&l, 0); mstl3_free (&now, 0);
}
