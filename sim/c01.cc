// C01: stream fidelity under any delivery
#include "scn.h"
using namespace sim;

SCENARIO (C01, stream)
{
  sim_setup ();
  size_t mx; Stream s = mixed_stream (10, true, true, &mx);
  tune_buffer (mx);
  Str bytes = s.bytes;
  bool last_nob = s.recs.back ().fmt == 2 && !s.recs.back ().b1000;
  if (!last_nob && choose (3) == 2)
  { // partial record at the end
    GenOpt o; RefRec r = gen_record (o);
    size_t min = 1, cut;
    if (r.fmt == 2 && r.raw.size () > 128) min = choose (2) ? 1 : 128;
    cut = min + choose (r.raw.size () - min);
    cut = safe_cut (r, cut);
    bytes += r.raw.substr (0, cut);
    libmseed_sim_maxreclen = std::min (10485760, std::max (libmseed_sim_maxreclen, (int)r.raw.size () + 64));
    fault ("truncated-tail");
    log ("tail: %zu of %zu bytes of a v%d record", cut, r.raw.size (), r.fmt);
  }
  SrcKind k = (SrcKind)choose (SRC_NKINDS);
  Source src = make_source (k, bytes, any_name ("data.mseed"));
  uint32_t flags = 0; bool unp = !choose (2); if (unp) flags |= MSF_UNPACKDATA; if (choose (2)) flags |= MSF_VALIDATECRC; if (choose (4) == 3) flags |= MSF_PNAMERANGE;
  int api = choose (3) == 2 ? 1 : 0;
  log ("stream of %zu records, %zu bytes via %s, buffer %d, flags 0x%x", s.recs.size (), bytes.size (), kindname (k), libmseed_sim_maxreclen, flags);
  for (auto &r : s.recs) log ("  %s", describe (r).c_str ());
  nontrivial ();
  ReadOut o = read_all (src, flags, NULL, -1, api);
  if (k == SRC_FD) api = 0;
  expect_exact (o, s, 0, s.recs.size (), unp, kindname (k), api == 0);
  NEED (o.code == MS_ENDOFFILE, "stream:end-code", "reading a complete stream ends with %s instead of end-of-data", codename (o.code));
  if (api == 0) NEED (o.recordcount == (int64_t)s.recs.size (), "stream:recordcount", "recordcount is %lld for %zu records", (long long)o.recordcount, s.recs.size ());
}

// same stream through two different deliveries, including the tail decided by what is read
SCENARIO (C01, parse_growing)
{
  // a caller that feeds a buffer to the parser as bytes arrive
  sim_setup ();
  GenOpt o; o.sidpool = 8; if (choose (5) == 4) o.max_samples = 30000;
  RefRec a = gen_record (o), b = gen_record (o);
  libmseed_sim_maxreclen = 10485760;
  Str all = a.raw + b.raw;
  bool unp = !choose (2); uint32_t flags = (unp ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_VALIDATECRC : 0);
  MS3Record *msr = NULL;
  log ("record %s followed by %s", describe (a).c_str (), describe (b).c_str ());
  nontrivial ();
  size_t avail = choose (4) == 0 ? a.raw.size () : 1 + choose (all.size ()); int calls = 0;
  while (1)
  {
    if (avail > all.size ()) avail = all.size ();
    const char *p = ro_copy (all.substr (0, avail));
    int rc = msr3_parse (p, avail, &msr, flags, 0);
    log ("parse with %zu bytes: %d", avail, rc);
    NEED (++calls < 100000, "parse:no-progress", "the parser keeps asking for more");
    if (rc == 0)
    {
      NEED (avail >= a.raw.size (), "parse:partial-as-record", "a record of %zu bytes is returned from %zu bytes", a.raw.size (), avail);
      Got g = capture (msr, 0); Str d = diff_got (g, a, 0, unp, false);
      NEED (d.empty (), "parse:differs", "%s: %s", describe (a).c_str (), d.c_str ());
      break;
    }
    if (rc < 0)
    {
      // fewer bytes than a minimum record cannot be identified
      NEED (avail < 40 && rc == MS_NOTSEED, "parse:error", "valid record refused with %s when %zu of %zu bytes are available", codename (rc), avail, a.raw.size ());
      NEED (msr == NULL || true, "", "");
      avail += 1 + choose (64);
      continue;
    }
    NEED (avail < a.raw.size (), "parse:hint", "more bytes requested although the whole record is available");
    // the hint: never so large that following it would run past the record
    if (a.fmt == 3) NEED (avail + rc <= a.raw.size (), "parse:hint-too-large", "with %zu of %zu bytes the parser asks for %d more", avail, a.raw.size (), rc);
    avail += choose (2) ? rc : 1 + choose (rc);
  }
  msr3_free (&msr);
}

// several readers advance in turn; each must see its own stream only
SCENARIO (C01, interleaved)
{
  sim_setup ();
  int n = 2 + choose (2); size_t mx = 64;
  std::vector<Stream> st; std::vector<Source> so; std::vector<MS3FileParam *> fp (n, (MS3FileParam *)NULL); std::vector<MS3Record *> mr (n, (MS3Record *)NULL);
  std::vector<ReadOut> out (n); std::vector<bool> done (n, false);
  for (int i = 0; i < n; i++) { size_t m; st.push_back (mixed_stream (6, false, false, &m)); mx = std::max (mx, m); }
  tune_buffer (mx);
  for (int i = 0; i < n; i++)
  {
    SrcKind k = (SrcKind)choose (SRC_NKINDS); if (k == SRC_STDIN && i) k = SRC_FILE;
    so.push_back (make_source (k, st[i].bytes, fmt ("s%d", i)));
    if (k == SRC_FD) { fp[i] = ms3_mstl_init_fd (make_fd (so[i].name)); NEED (fp[i], "fd:init", "ms3_mstl_init_fd failed"); }
    log ("reader %d: %zu records via %s", i, st[i].recs.size (), kindname (k));
  }
  nontrivial ();
  bool unp = !choose (2); int left = n;
  while (left)
  {
    int i = choose (n); while (done[i]) i = (i + 1) % n;
    int rc = ms3_readmsr_r (&fp[i], &mr[i], so[i].path.c_str (), unp ? MSF_UNPACKDATA : 0, 0);
    log ("reader %d: %s", i, codename (rc));
    if (rc == MS_NOERROR) { out[i].recs.push_back (capture (mr[i], fp[i]->streampos - mr[i]->reclen)); NEED (out[i].recs.size () <= st[i].recs.size (), "stream:extra", "reader %d returned more records than its stream has", i); }
    else { out[i].code = rc; done[i] = true; left--; }
  }
  for (int i = 0; i < n; i++)
  {
    expect_exact (out[i], st[i], 0, st[i].recs.size (), unp, "interleaved reader");
    NEED (out[i].code == MS_ENDOFFILE, "stream:end-code", "ends with %s", codename (out[i].code));
    ms3_readmsr_r (&fp[i], &mr[i], NULL, 0, 0);
  }
}

// the whole stream taken into a trace list: counts and samples as the records say (see C06 for structure)
SCENARIO (C01, tracelist)
{
  sim_setup ();
  size_t mx; Stream s = mixed_stream (8, false, false, &mx); tune_buffer (mx);
  SrcKind k = choose (2) ? SRC_URL : SRC_FILE;
  Source src = make_source (k, s.bytes, any_name ("tl.mseed"));
  MS3TraceList *l = NULL; nontrivial ();
  int rc = ms3_readtracelist (&l, src.path.c_str (), NULL, 0, MSF_RECORDLIST, 0);
  NEED (rc == MS_NOERROR, "tracelist:code", "reading a valid stream into a trace list returns %s", codename (rc));
  std::map<Str, int64_t> want, have; std::map<Str, std::vector<int64_t>> wo, ho;
  for (size_t i = 0; i < s.recs.size (); i++) if (s.recs[i].nsamp () > 0) { want[s.recs[i].sid] += s.recs[i].nsamp (); wo[s.recs[i].sid].push_back (s.offs[i]); }
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next)
  {
    have[id->sid] += g->samplecnt;
    if (g->recordlist) for (MS3RecordPtr *p = g->recordlist->first; p; p = p->next) { if (p->msr->samplecnt > 0) ho[id->sid].push_back (p->fileoffset); }
  }
  for (auto &w : want) NEED (have[w.first] == w.second, "tracelist:count", "%s has %lld samples in the list, %lld in the stream", w.first.c_str (), (long long)have[w.first], (long long)w.second);
  for (auto &w : wo) { auto h = ho[w.first]; std::sort (h.begin (), h.end ()); NEED (h == w.second, "tracelist:offsets", "record offsets listed for %s differ from those in the stream", w.first.c_str ()); }
  log ("list: %s", seginfo (l).c_str ());
  mstl3_free (&l, 0);
}
