// C02: byte-range and URL reads
#include "scn.h"
using namespace sim;

static const int64_t FAR = INT64_MAX / 2; // an end that no data has
struct Range { int64_t s, e; size_t from, to; bool exact; };
// records [from,to) lie completely within bytes [s,e]
static void within (const Stream &st, int64_t s, int64_t e, size_t &from, size_t &to)
{
  from = 0; while (from < st.recs.size () && st.offs[from] < s) from++;
  to = from; while (to < st.recs.size () && st.offs[to] + (int64_t)st.recs[to].raw.size () - 1 <= e) to++;
}
// an end offset (inclusive) for reading from record i on
static int64_t pick_end (const Stream &st, size_t i)
{
  int64_t L = st.bytes.size ();
  if (choose (3) == 0) return 0;
  size_t j = i + choose (st.recs.size () - i);
  int64_t len = st.recs[j].raw.size ();
  switch (choose (5))
  {
  case 0: return st.offs[j] + len - 1;
  case 1: { int64_t e = st.offs[j] + len - 1; if (e + 1 >= L) return L + choose (100000); return e + (int64_t)safe_cut (st.recs[j + 1], 1 + choose (50)); }
  case 2: return st.offs[j] + (int64_t)safe_cut (st.recs[j], len - 1 - choose (3)) - 1;
  case 3: return st.offs[j] + (int64_t)safe_cut (st.recs[j], 1 + choose (len - 1)) - 1;
  default: if (choose (5) == 4) return FAR; return L - 1 + choose (2) * choose (100000);
  }
}
static Str suffix (int64_t s, int64_t e)
{
  if (e == FAR) { static const char *F[] = { "4611686018427387903", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551000", "18446744073709551616", "99999999999999999999", "9999999999999999999" }; probe ("far-end"); return fmt ("@%lld-%s", (long long)s, F[choose (8)]); }
  if (s && e) return fmt ("@%lld-%lld", (long long)s, (long long)e);
  if (s) return choose (2) ? fmt ("@%lld-", (long long)s) : fmt ("@%lld", (long long)s);
  if (e) return choose (2) ? fmt ("@-%lld", (long long)e) : fmt ("@0-%lld", (long long)e);
  return "";
}
static Stream v3_stream (int maxrec, size_t *mx)
{
  Stream s; *mx = 64; int n = 2 + choose (maxrec - 1);
  GenOpt o; o.v2 = false; o.max_samples = 200; o.max_len = 20000; o.sidpool = 8;
  for (int i = 0; i < n; i++) { RefRec r = gen_record (o); *mx = std::max (*mx, r.raw.size ()); s.add (r); }
  return s;
}
static void set_range (Source &src, int64_t s, int64_t e, uint32_t &flags)
{
  // a file's own name may contain what looks like the start of a range
  if (choose (2) || (!s && !e)) { src.path += suffix (s, e); flags |= MSF_PNAMERANGE; }
  else
  {
    src.msfp = (MS3FileParam *)user_alloc (sizeof (MS3FileParam));
    memset (src.msfp, 0, sizeof (MS3FileParam));
    src.msfp->startoffset = s; src.msfp->endoffset = e;
    if (choose (3) == 2) flags |= MSF_PNAMERANGE;
  }
}
static Source ranged_source (bool url, const Str &bytes)
{
  static const char *names[] = { "data.mseed", "data@x", "d@1x/data.mseed", "data@12-x" };
  Str n = names[choose (4)];
  Source src = make_source (url ? SRC_URL : SRC_FILE, bytes, n);
  if (url) { Server &v = server (src.path); if (choose (8) == 7) v.eintr = 2; }
  return src;
}

// a range gives exactly the complete records a plain read of that range would give
SCENARIO (C02, range)
{
  sim_setup ();
  size_t mx; bool off = choose (4) == 3;
  Stream s = off ? v3_stream (8, &mx) : mixed_stream (10, choose (8) == 7, false, &mx);
  bool longer = choose (3) == 2; if (longer && mx < 8192 && s.recs.size ()) { while (s.bytes.size () < 18000 + mx) s.add (RefRec (s.recs[choose (s.recs.size ())])); probe ("more-than-the-buffer"); }
  if (off && has_lookalike (s.bytes, s.offs)) off = false;
  tune_buffer (mx);
  int reads = 1 + choose (3); nontrivial ();
  for (auto &r : s.recs) log ("  %s", describe (r).c_str ());
  bool url = choose (3) != 0;
  for (int k = 0; k < reads; k++)
  {
    size_t i = choose (longer ? std::min<size_t> (3, s.recs.size ()) : s.recs.size ());
    int64_t st = s.offs[i], e;
    if (off) { st += 1 + choose (s.recs[i].raw.size () - 1); if (i + 1 >= s.recs.size ()) { e = 0; } else e = pick_end (s, i + 1); }
    else e = pick_end (s, i);
    if (e && e <= st) e = 0;
    bool unp = !choose (2); uint32_t flags = (unp ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_VALIDATECRC : 0);
    if (off || choose (4) == 3) flags |= MSF_SKIPNOTDATA;
    if (off) flags |= MSF_VALIDATECRC;
    // skipping past a partial record at the end may only find what is really a record there
    if ((flags & MSF_SKIPNOTDATA) && !off) { if (has_lookalike (s.bytes, s.offs)) flags &= ~MSF_SKIPNOTDATA; else { bool v2 = false; for (auto &r : s.recs) v2 |= r.fmt == 2; if (v2) flags &= ~MSF_SKIPNOTDATA; } }
    Source src = ranged_source (url, s.bytes);
    // the buffer may end just where the range does
    if (e && choose (2)) { int64_t want = std::min<int64_t> (e + 1, s.bytes.size ()) - st - 16384 - (int64_t)choose (3); if (want >= (int64_t)std::max<size_t> (mx, 64)) { libmseed_sim_maxreclen = want; probe ("buffer-ends-with-range"); } }
    set_range (src, st, e, flags);
    size_t from, to; within (s, st, e ? e : (int64_t)s.bytes.size (), from, to);
    log ("range %lld-%lld of %zu via %s flags 0x%x buffer %d: records %zu..%zu", (long long)st, (long long)e, s.bytes.size (), url ? "url" : "file", flags, libmseed_sim_maxreclen, from, to);
    ReadOut o = read_all (src, flags);
    expect_exact (o, s, from, to, unp, url ? "URL range" : "file range");
    if (to > from) NEED (o.code == MS_ENDOFFILE, "range:end-code", "%s range ends with %s after %zu records", url ? "URL" : "file", codename (o.code), o.recs.size ());
    else NEED (o.code == MS_ENDOFFILE || o.code == MS_NOTSEED, "range:end-code", "range without complete records ends with %s", codename (o.code));
    NEED (o.recordcount == (int64_t)(to - from), "range:recordcount", "recordcount is %lld for %zu records", (long long)o.recordcount, to - from);
  }
}

// the same through a trace list: same samples, offsets measured from the start of the resource
SCENARIO (C02, tracelist)
{
  sim_setup ();
  size_t mx; Stream s = mixed_stream (8, false, false, &mx); tune_buffer (mx);
  size_t i = choose (s.recs.size ()); int64_t st = s.offs[i], e = pick_end (s, i); if (e && e <= st) e = 0;
  size_t from, to; within (s, st, e ? e : (int64_t)s.bytes.size (), from, to);
  bool url = choose (2);
  Source src = ranged_source (url, s.bytes);
  src.path += suffix (st, e); nontrivial ();
  log ("trace list from %s: records %zu..%zu of %zu", src.path.c_str (), from, to, s.recs.size ());
  MS3TraceList *l = NULL;
  int rc = ms3_readtracelist (&l, src.path.c_str (), NULL, 0, MSF_RECORDLIST | MSF_PNAMERANGE | MSF_UNPACKDATA, 0);
  if (to > from) NEED (rc == MS_NOERROR, "tracelist:code", "reading a range into a trace list returns %s", codename (rc));
  std::multiset<Str> want, have; std::map<Str, int64_t> wc, hc;
  for (size_t k = from; k < to; k++) { want.insert (fmt ("%s@%lld", s.recs[k].sid.c_str (), (long long)s.offs[k])); wc[s.recs[k].sid] += s.recs[k].nsamp (); }
  if (l) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next)
  {
    hc[id->sid] += g->numsamples;
    if (g->recordlist) for (MS3RecordPtr *p = g->recordlist->first; p; p = p->next) have.insert (fmt ("%s@%lld", p->msr->sid, (long long)p->fileoffset));
  }
  for (auto &w : want) NEED (have.count (w) >= want.count (w), "tracelist:missing", "record %s is not in the list read from range %lld-%lld", w.c_str (), (long long)st, (long long)e);
  for (auto &h : have) NEED (want.count (h), "tracelist:extra", "record %s is not within range %lld-%lld", h.c_str (), (long long)st, (long long)e);
  for (auto &w : wc) NEED (hc[w.first] == w.second, "tracelist:samples", "%s has %lld samples, %lld in the range", w.first.c_str (), (long long)hc[w.first], (long long)w.second);
  mstl3_free (&l, 0);
}

// servers that answer with something else than was asked for
SCENARIO (C02, server)
{
  sim_setup ();
  size_t mx; Stream s = mixed_stream (8, false, false, &mx); tune_buffer (mx);
  int64_t L = s.bytes.size ();
  size_t i = choose (s.recs.size ()); int64_t st = s.offs[i], e = pick_end (s, i); if (e && e <= st) e = 0;
  if (!st && !e) { if (s.recs.size () > 1) { i = 1; st = s.offs[1]; } else e = L - 1; }
  Source src = make_source (SRC_URL, s.bytes, "srv"); Str url = src.path;
  Server &v = server (url);
  uint32_t flags = MSF_UNPACKDATA | (choose (2) ? MSF_VALIDATECRC : 0);
  int kind = choose (5); nontrivial ();
  if (kind == 0)
  {
    v.ranges = false; fault ("net-ignores-range");
    set_range (src, st, e, flags);
    log ("server ignores range %lld-%lld", (long long)st, (long long)e);
    ReadOut o = read_all (src, flags);
    size_t from, to; within (s, st, e ? e : L, from, to);
    if (o.recs.empty ()) NEED (o.code < 0 || to == from, "server:ignored-range-silent", "a server that ignores range %lld-%lld gives %s with no records", (long long)st, (long long)e, codename (o.code));
    else
    {
      for (size_t k = 0; k < o.recs.size (); k++)
      {
        NEED (from + k < to, "server:ignored-range-data", "bytes outside range %lld-%lld are returned as it: %s", (long long)st, (long long)e, describe (o.recs[k]).c_str ());
        Str d = diff_got (o.recs[k], s.recs[from + k], s.offs[from + k], true);
        NEED (d.empty (), "server:ignored-range-data", "bytes outside range %lld-%lld are returned as it: %s", (long long)st, (long long)e, d.c_str ());
      }
      NEED (o.recs.size () == to - from || o.code < 0, "server:ignored-range-silent", "%zu of %zu records of the range and %s", o.recs.size (), to - from, codename (o.code));
    }
  }
  else if (kind == 1)
  { // answers with another range and says so
    size_t j = choose (s.recs.size ()); v.shift = s.offs[j] - st; fault ("net-other-range");
    int64_t a = s.offs[j], b = e ? e + v.shift : L - 1;
    // keep the end of what is sent at a place where the remains are a partial record
    size_t from, to;
    if (e) { if (b >= L) b = L - 1; if (b < a) { e = 0; b = L - 1; } }
    if (e) { size_t q = j; while (q + 1 < s.recs.size () && s.offs[q + 1] <= b) q++; int64_t c = b + 1 - s.offs[q]; if (c < (int64_t)s.recs[q].raw.size ()) { int64_t nc = safe_cut (s.recs[q], c); b = s.offs[q] + nc - 1; e = b - v.shift; if (e <= st) { e = 0; b = L - 1; } } }
    if (!e) b = L - 1;
    if (!st && !e) return;
    within (s, a, b, from, to);
    set_range (src, st, e, flags);
    log ("server answers range %lld-%lld with %lld-%lld: records %zu..%zu", (long long)st, (long long)e, (long long)a, (long long)b, from, to);
    ReadOut o = read_all (src, flags);
    if (o.recs.empty () && o.code < 0 && v.shift) { probe ("other-range-refused"); return; }
    expect_exact (o, s, from, to, true, "declared range");
    if (to > from) NEED (o.code == MS_ENDOFFILE, "server:end-code", "declared range ends with %s", codename (o.code));
  }
  else if (kind == 2)
  { // beyond the end
    st = L + choose (1000); e = choose (2) ? st + 100 + choose (10000) : 0;
    set_range (src, st, e, flags);
    ReadOut o = read_all (src, flags);
    NEED (o.recs.empty (), "server:beyond-end", "a range beyond the end gives records");
    NEED (o.code < 0, "server:refused-range-silent", "a refused range (416) gives %s", codename (o.code));
  }
  else if (kind == 3)
  { // errors instead of data, with a body that looks like data
    static const int codes[] = { 400, 403, 404, 416, 429, 500, 503, 404 };
    v.status = codes[choose (8)]; 
    set_range (src, st, e, flags);
    log ("server answers %d", v.status);
    ReadOut o = read_all (src, flags);
    NEED (o.code < 0 && o.recs.empty (), "server:error-status", "an answer with status %d gives %zu records and %s", v.status, o.recs.size (), codename (o.code));
  }
  else
  { // the same server again and again: each request gets what it asks for
    uint32_t f0 = flags;
    for (int k = 0; k < 3; k++)
    {
      i = choose (s.recs.size ()); st = s.offs[i]; e = pick_end (s, i); if (e && e <= st) e = 0;
      flags = f0; Source r2; r2.kind = SRC_URL; r2.name = src.name; r2.path = url;
      int broken = choose (3);
      if (broken == 1) { v.status = 503; } else if (broken == 2) v.ranges = !v.ranges;
      bool ranges = v.ranges;
      set_range (r2, st, e, flags);
      size_t from, to; within (s, st, e ? e : L, from, to);
      log ("request %d: %lld-%lld status %d ranges %d", k, (long long)st, (long long)e, v.status, (int)ranges);
      ReadOut o = read_all (r2, flags);
      if (v.status) NEED (o.code < 0 && o.recs.empty (), "server:error-status", "status %d gives %zu records and %s", v.status, o.recs.size (), codename (o.code));
      else if (!ranges && st) NEED (o.code < 0 && o.recs.empty (), "server:ignored-range-data", "range %lld-%lld ignored by the server: %zu records and %s", (long long)st, (long long)e, o.recs.size (), codename (o.code));
      else if (!ranges && e) { if (o.code == MS_ENDOFFILE) expect_exact (o, s, from, to, true, "whole instead of range"); }
      else { expect_exact (o, s, from, to, true, "repeated range"); if (to > from) NEED (o.code == MS_ENDOFFILE, "server:end-code", "repeated range ends with %s", codename (o.code)); }
      v.status = 0;
    }
  }
  NEED (open_handles () == 0, "server:handles", "%d network handles stay open", open_handles ());
}

// two transfers at once, advanced in any order, with very uneven networks
SCENARIO (C02, parallel)
{
  sim_setup ();
  int n = 2 + choose (2); size_t mx = 64; std::vector<Stream> st; std::vector<Source> so; std::vector<size_t> from (n), to (n), at (n);
  std::vector<MS3FileParam *> fp (n, (MS3FileParam *)NULL); std::vector<MS3Record *> mr (n, (MS3Record *)NULL); std::vector<bool> done (n, false);
  for (int i = 0; i < n; i++) { size_t m; st.push_back (mixed_stream (6, choose (6) == 5, false, &m)); mx = std::max (mx, m); }
  tune_buffer (mx);
  for (int i = 0; i < n; i++)
  {
    so.push_back (make_source (choose (4) ? SRC_URL : SRC_FILE, st[i].bytes, fmt ("p%d", i)));
    if (so[i].kind == SRC_URL) { Server &v = server (so[i].path); if (choose (4) == 3) { v.delay_ms = 1 + choose (60000); v.chunk_style = 1; v.unit = 4096; } if (choose (8) == 7) v.eintr = 2; }
    size_t k = choose (st[i].recs.size ()); int64_t a = st[i].offs[k], e = pick_end (st[i], k); if (e && e <= a) e = 0;
    within (st[i], a, e ? e : (int64_t)st[i].bytes.size (), from[i], to[i]); at[i] = from[i];
    so[i].path += suffix (a, e);
    log ("transfer %d: %s records %zu..%zu", i, so[i].path.c_str (), from[i], to[i]);
  }
  nontrivial (); int left = n;
  while (left)
  {
    int i = choose (n); while (done[i]) i = (i + 1) % n;
    int rc = ms3_readmsr_r (&fp[i], &mr[i], so[i].path.c_str (), MSF_UNPACKDATA | MSF_PNAMERANGE, 0);
    if (rc == MS_NOERROR)
    {
      NEED (at[i] < to[i], "range:extra", "transfer %d returns a record outside its range", i);
      Str d = diff_got (capture (mr[i], fp[i]->streampos - mr[i]->reclen), st[i].recs[at[i]], st[i].offs[at[i]], true);
      NEED (d.empty (), "range:differs", "transfer %d: %s", i, d.c_str ()); at[i]++;
    }
    else
    {
      NEED (at[i] == to[i], "range:missing", "transfer %d ends with %s after %zu of %zu records", i, codename (rc), at[i] - from[i], to[i] - from[i]);
      NEED (rc == MS_ENDOFFILE || to[i] == from[i], "range:end-code", "transfer %d ends with %s", i, codename (rc));
      ms3_readmsr_r (&fp[i], &mr[i], NULL, 0, 0); done[i] = true; left--;
    }
  }
  NEED (open_handles () == 0, "server:handles", "%d network handles stay open", open_handles ());
}
// a name too long to be kept is refused, it never names something else
SCENARIO (C02, longname)
{
  sim_setup (); nontrivial (); size_t mx; Stream s = mixed_stream (3, false, false, &mx), o = mixed_stream (2, false, false, &mx); bool url = choose (2); size_t n = choose (2) ? 490 + choose (40) : 100 + choose (2000); Str pre = url ? "http://sim.host/" : ""; if (n < 40) n = 40; Str path = pre + Str (n - pre.size (), 'p'); bool range = choose (2); tune_buffer (1 << 20);
  auto put = [&] (const Str &p, const Str &b) { if (url) { Server &v = server (p); v = Server (); v.body = b; } else { File &f = file (p); f = File (); f.data = b; } };
  for (size_t k : { 511, 512, 500, 255 }) if (k < path.size ()) put (path.substr (0, k), o.bytes); put (path, s.bytes);
  Str arg = path; uint32_t fl = MSF_UNPACKDATA; if (range) { fl |= MSF_PNAMERANGE; arg += fmt ("@0-%zu", s.bytes.size () - 1); } bool list = choose (3) == 2; log ("%zu characters%s%s", path.size (), range ? " and a range" : "", url ? ", URL" : "");
  if (list) { MS3TraceList *l = NULL; int rc = ms3_readtracelist (&l, arg.c_str (), NULL, 0, fl, 0); int64_t c = 0, w = 0; if (l) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) c += g->numsamples; for (auto &r : s.recs) w += r.nsamp (); NEED (rc ? path.size () >= 512 && c == 0 : true, "range:long-name", "reading a name of %zu characters ends with %s and %lld samples", path.size (), codename (rc), (long long)c); mstl3_free (&l, 0); return; }
  Source src; src.kind = url ? SRC_URL : SRC_FILE; src.name = path; src.path = arg; ReadOut r = read_all (src, fl);
  if (path.size () >= 512 && r.code == MS_GENERROR) { NEED (r.recs.empty (), "range:long-name", "records from a name that was refused"); return; }
  expect_exact (r, s, 0, s.recs.size (), true, "a long name"); NEED (r.code == MS_ENDOFFILE, "range:long-name", "reading ends with %s", codename (r.code));
}

// data far into a resource: offsets that need more than 31 or 32 bits
SCENARIO (C02, far)
{
  sim_setup (); nontrivial (); size_t mx; Stream s = mixed_stream (6, false, false, &mx); tune_buffer (mx);
  static const int64_t B[] = { 1LL << 31, 1LL << 32, 1LL << 33, 1LL << 40, 3000000000LL, 5000000000LL, 1LL << 53, 1LL << 61 }; int64_t H = B[choose (8)] - (int64_t)choose (choose (2) ? 2 : s.bytes.size ());
  size_t i = choose (s.recs.size ()), j = choose (3) ? i + choose (s.recs.size () - i) : s.recs.size () - 1; bool open = j + 1 == s.recs.size () && choose (2);
  int64_t st = H + s.offs[i], e = open ? 0 : H + s.offs[j] + (int64_t)s.recs[j].raw.size () - 1 + (j + 1 < s.recs.size () ? (int64_t)safe_cut (s.recs[j + 1], 1 + choose (40)) * (int)choose (2) : 0);
  bool url = choose (2); Source src = make_source (url ? SRC_URL : SRC_FILE, s.bytes, "far"); if (url) server (src.path).hole = H; else file ("far").hole = H;
  std::vector<int64_t> offs = s.offs; for (auto &o : s.offs) o += H; log ("range %lld-%lld via %s: records %zu to %zu", (long long)st, (long long)e, url ? "url" : "file", i, j);
  if (choose (2))
  {
    uint32_t fl = MSF_UNPACKDATA | (choose (2) ? MSF_VALIDATECRC : 0); set_range (src, st, e, fl); ReadOut o = read_all (src, fl); expect_exact (o, s, i, j + 1, true, "a range far into the resource"); NEED (o.code == MS_ENDOFFILE, "range:end-code", "the range ends with %s", codename (o.code)); return;
  }
  Str arg = src.path + suffix (st, e); bool unp = url || choose (2); MS3TraceList *l = NULL; int rc = ms3_readtracelist (&l, arg.c_str (), NULL, 0, MSF_RECORDLIST | MSF_PNAMERANGE | (unp ? MSF_UNPACKDATA : 0), 0);
  NEED (rc == MS_NOERROR && l, "tracelist:code", "reading a range into a trace list returns %s", codename (rc)); std::map<int64_t, const RefRec *> want; for (size_t k = i; k <= j; k++) want[s.offs[k]] = &s.recs[k]; size_t n = 0;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next)
  {
    Str all; NEED (g->recordlist, "tracelist:missing", "a segment without record list");
    for (MS3RecordPtr *p = g->recordlist->first; p; p = p->next, n++) { NEED (want.count (p->fileoffset), "tracelist:extra", "a record at %lld of %s, there is none", (long long)p->fileoffset, id->sid); const RefRec &r = *want[p->fileoffset]; NEED (r.sid == p->msr->sid && r.start == p->msr->starttime, "tracelist:extra", "another record than %s at %lld", describe (r).c_str (), (long long)p->fileoffset); if (r.nsamp ()) all += r.s.bytes (); }
    if (!unp && g->samplecnt) { bool mixed = false; char ty = 0; for (MS3RecordPtr *p = g->recordlist->first; p; p = p->next) { const RefRec &r = *want[p->fileoffset]; if (r.nsamp ()) { if (ty && ty != r.s.type) mixed = true; ty = r.s.type; } } if (mixed) continue; int64_t k = mstl3_unpack_recordlist (id, g, NULL, 0, 0); NEED (k == g->samplecnt, "tracelist:samples", "unpacking later gives %lld of %lld samples", (long long)k, (long long)g->samplecnt); }
    if (g->numsamples) { Str got ((char *)g->datasamples, g->numsamples * ms_samplesize (g->sampletype)); NEED (got == all, "tracelist:samples", "the samples of %s are not those of its records", id->sid); }
  }
  NEED (n == j - i + 1, "tracelist:missing", "%zu of %zu records are in the list", n, j - i + 1); mstl3_free (&l, 0);
}
