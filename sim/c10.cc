// C10: concurrent use on separate data gives the results of running alone
#include "scn.h"
using namespace sim;

static thread_local Str *t_out;
static Str nn (const char *s) { return s ? s : "(none)"; }
static void t_log (const char *s) { *t_out += s; }
static void t_diag (const char *s) { *t_out += "!"; *t_out += s; }
static void rec_out (char *rec, int len, void *h) { *(Str *)h += Str (rec, len); }
static void put (Str &o, const Got &g) { o += describe (g) + "|" + g.raw + "|" + g.extra + "|" + g.samples + "\n"; }
static void put_list (Str &o, const MS3TraceList *l)
{
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
  {
    o += fmt ("%s v%d %lld..%lld %u segments\n", id->sid, id->pubversion, (long long)id->earliest, (long long)id->latest, id->numsegments);
    for (MS3TraceSeg *g = id->first; g; g = g->next)
    {
      o += fmt (" %lld..%lld %.9g Hz %lld/%lld %c %llu records ", (long long)g->starttime, (long long)g->endtime, g->samprate, (long long)g->samplecnt, (long long)g->numsamples, g->sampletype ? g->sampletype : '-', g->recordlist ? (unsigned long long)g->recordlist->recordcnt : 0ull);
      if (g->datasamples) o += Str ((char *)g->datasamples, g->numsamples * ms_samplesize (g->sampletype));
      o += "\n";
    }
  }
}
typedef std::function<void (Str &)> Task;

// what all threads may share, all of it read-only
struct Shared { Stream s; const char *buf = NULL; std::vector<const MS3Record *> msr; const MS3Selections *sel = NULL; MS3Selections *selown = NULL; const MS3Tolerance *tol = NULL; };
static double tol_t (const MS3Record *m) { return m->samprate ? 0.4 / fabs (msr3_sampratehz (m)) : 0; }
static double tol_r (const MS3Record *) { return 0.001; }
static Shared make_shared ()
{
  Shared h; int n = 1 + choose (4);
  for (int i = 0; i < n; i++) { GenOpt o; o.max_samples = 120; o.max_len = 4096; o.sidpool = 6; h.s.add (gen_record (o)); }
  h.buf = ro_copy (h.s.bytes);
  for (auto &r : h.s.recs)
  {
    MS3Record *m = NULL; NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused");
    MS3Record c = *m; c.record = ro_copy (r.raw); if (m->extra) c.extra = (char *)ro_copy (Str (m->extra, m->extralength + 1)); if (m->datasamples) c.datasize = m->numsamples * ms_samplesize (m->sampletype), c.datasamples = (void *)ro_copy (Str ((char *)m->datasamples, m->numsamples * ms_samplesize (m->sampletype)));
    h.msr.push_back ((const MS3Record *)ro_copy (Str ((char *)&c, sizeof c)));
  }
  int ns = 1 + choose (4);
  for (int i = 0; i < ns; i++) { Str p = choose (2) ? Str ("FDSN:*") : h.s.recs[choose (n)].sid; int64_t t = h.s.recs[choose (n)].start; ms3_addselect (&h.selown, p.c_str (), choose (2) ? NSTUNSET : t - (int64_t)choose (100) * 1000000000, choose (2) ? NSTUNSET : t + (int64_t)choose (100) * 1000000000, choose (3) ? 0 : 1); }
  // a read-only copy of the selections
  std::function<MS3Selections *(const MS3Selections *)> cp = [&] (const MS3Selections *x) -> MS3Selections * {
    if (!x) return NULL; MS3Selections c = *x; c.next = cp (x->next); MS3SelectTime *tw = NULL; std::vector<MS3SelectTime *> v; for (MS3SelectTime *t = x->timewindows; t; t = t->next) v.push_back (t);
    for (size_t i = v.size (); i--;) { MS3SelectTime t = *v[i]; t.next = tw; tw = (MS3SelectTime *)ro_copy (Str ((char *)&t, sizeof t)); } c.timewindows = tw; return (MS3Selections *)ro_copy (Str ((char *)&c, sizeof c)); };
  h.sel = cp (h.selown);
  MS3Tolerance t; t.time = tol_t; t.samprate = choose (2) ? tol_r : NULL; h.tol = (const MS3Tolerance *)ro_copy (Str ((char *)&t, sizeof t));
  return h;
}

static Task t_read (int id)
{
  size_t mx; Stream s = mixed_stream (5, false, false, &mx); SrcKind k = (SrcKind)(choose (2) ? SRC_FILE : SRC_URL); Source src = make_source (k, s.bytes, fmt ("t%d.mseed", id)); uint32_t fl = (choose (2) ? MSF_UNPACKDATA : 0) | MSF_VALIDATECRC | (choose (2) ? MSF_SKIPNOTDATA : 0);
  int details = choose (3); Str path = src.path;
  log ("task %d: read %zu records via %s", id, s.recs.size (), kindname (k));
  return [=] (Str &o) {
    MS3FileParam *fp = NULL; MS3Record *m = NULL; int rc;
    while ((rc = ms3_readmsr_r (&fp, &m, path.c_str (), fl, 0)) == MS_NOERROR) { put (o, capture (m, fp->streampos - m->reclen)); if (details) msr3_print (m, details - 1); }
    o += codename (rc); ms3_readmsr_r (&fp, &m, NULL, 0, 0);
  };
}
static Task t_list (int id)
{
  size_t mx; Stream s = mixed_stream (6, false, false, &mx); Source src = make_source (SRC_FILE, s.bytes, fmt ("t%d.mseed", id)); Str path = src.path; bool rl = choose (2); int pr = choose (4), conv = choose (6), wr = choose (4); if (conv > 2) conv = 0; if (wr > 2) wr = 0;
  int win = choose (3); int64_t w1 = NSTUNSET, w2 = NSTUNSET;
  if (win) { auto &a = s.recs[choose (s.recs.size ())], &b = s.recs[choose (s.recs.size ())]; if (choose (3)) w1 = std::min (a.start, b.start) + (int64_t)choose (3) * 500000000 - 500000000; if (choose (3)) w2 = std::max (a.start, b.start) + (int64_t)choose (3) * 500000000 - 500000000; }
  log ("task %d: trace list of %zu records%s", id, s.recs.size (), win ? " in a time window" : "");
  return [=] (Str &o) {
    MS3TraceList *l = NULL; char *p = (char *)user_alloc (path.size () + 1); strcpy (p, path.c_str ());
    int rc = win ? ms3_readtracelist_timewin (&l, p, NULL, w1, w2, 0, rl ? MSF_RECORDLIST : MSF_UNPACKDATA, 0) : ms3_readtracelist (&l, p, NULL, 0, rl ? MSF_RECORDLIST : MSF_UNPACKDATA, 0); o += codename (rc); if (!l) return;
    if (rl) for (MS3TraceID *i = l->traces.next[0]; i; i = i->next[0]) for (MS3TraceSeg *g = i->first; g; g = g->next) o += fmt ("%lld ", (long long)mstl3_unpack_recordlist (i, g, NULL, 0, 0));
    put_list (o, l);
    if (pr == 0) mstl3_printtracelist (l, ISOMONTHDAY, 1, 1, 0); else if (pr == 1) mstl3_printgaplist (l, SEEDORDINAL, NULL, NULL); else if (pr == 2) mstl3_printsynclist (l, NULL, MICRO);
    if (!rl && conv) for (MS3TraceID *i = l->traces.next[0]; i; i = i->next[0]) for (MS3TraceSeg *g = i->first; g; g = g->next) if (g->sampletype != 't' && g->numsamples) { o += fmt ("%d", mstl3_convertsamples (g, conv == 1 ? 'd' : 'f', 0)); o += fmt (" %.9g ", conv == 1 ? ((double *)g->datasamples)[g->numsamples - 1] : ((float *)g->datasamples)[g->numsamples - 1]); }
    if (!rl && wr) { Str f = fmt ("out%d.mseed", id); o += fmt ("wrote %lld ", (long long)mstl3_writemseed (l, f.c_str (), 1, 512, conv ? -1 : -1, wr == 1 ? MSF_FLUSHDATA : MSF_FLUSHDATA | MSF_MAINTAINMSTL, 0)); if (has_file (f)) o += file (f).data; }
    mstl3_free (&l, 0); user_free (p);
  };
}
static Task t_pack (int id, const Shared &h)
{
  std::vector<RefRec> rs; int n = 1 + choose (4); for (int i = 0; i < n; i++) { GenOpt o; o.v2 = false; o.zero = false; o.max_samples = 300; rs.push_back (gen_record (o)); }
  static const int E[] = { -1, 11, 10, 3, 1 }; int enc = E[choose (5)], reclen = 256 << choose (3); bool v2 = choose (2); uint32_t fl = (v2 ? MSF_PACKVER2 : 0); bool file = choose (3) == 2; Str name = fmt ("t%d.out", id); const char *x = choose (2) ? "{\"FDSN\":{\"Time\":{\"Quality\":80},\"Event\":{\"Detection\":[{\"Type\":\"MURDOCK\",\"SignalAmplitude\":80,\"SignalPeriod\":0.4,\"BackgroundEstimate\":18,\"Wave\":\"DILATATION\",\"Units\":\"count\",\"OnsetTime\":\"2022-06-05T20:32:39.120000Z\",\"MEDSNR\":[1,2,3,4,5,6],\"MEDLookback\":2,\"MEDPickAlgorithm\":1,\"Detector\":\"Z_SPWWSS\"}]}}}" : NULL;
  log ("task %d: pack %d records' data, version %d", id, n, v2 ? 2 : 3); (void)h;
  return [=] (Str &o) {
    MS3TraceList *l = mstl3_init (NULL); MS3Record *m = NULL; int64_t ps = 0;
    for (auto &r : rs)
    {
      if (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0)) { o += "refused"; continue; }
      mstl3_addmsr (l, m, 0, 1, 0, NULL);
      Str p; char *e = NULL; if (x) { e = (char *)user_alloc (strlen (x) + 1); strcpy (e, x); } int64_t c = mstl3_pack (l, rec_out, &p, reclen, enc, &ps, fl, 0, e); o += fmt ("%lld %lld ", (long long)c, (long long)ps) + p; if (e) user_free (e);
    }
    Str p; int64_t c = mstl3_pack (l, rec_out, &p, reclen, 3, &ps, fl | MSF_FLUSHDATA, 0, NULL); o += fmt ("%lld %lld ", (long long)c, (long long)ps) + p;
    mstl3_free (&l, 0);
    if (file && m) { m->reclen = reclen; o += fmt ("%lld ", (long long)msr3_writemseed (m, name.c_str (), 1, MSF_FLUSHDATA, 0)); o += sim::file (name).data; }
    msr3_free (&m);
  };
}
static Task t_shared (int id, const Shared *h)
{
  int what = choose (6); bool rl = choose (2), unp = choose (2); size_t k = choose (h->msr.size ()); static const int E[] = { -1, 3, 10, 11 }; int enc = E[choose (4)]; (void)enc;
  log ("task %d: shared input, %d", id, what);
  return [=] (Str &o) {
    const MS3Record *m = h->msr[k]; MS3TraceList *l = NULL;
    switch (what)
    {
    case 0:
      for (size_t off = 0; off < h->s.bytes.size ();) { MS3Record *r = NULL; int rc = msr3_parse (h->buf + off, h->s.bytes.size () - off, &r, MSF_VALIDATECRC | (unp ? MSF_UNPACKDATA : 0), 0); o += codename (rc); if (rc) break; put (o, capture (r, off)); off += r->reclen; if (!unp) { o += fmt ("%lld", (long long)msr3_unpack_data (r, 0)); put (o, capture (r, off)); } msr3_free (&r); }
      break;
    case 1:
      o += fmt ("%lld ", (long long)mstl3_readbuffer_selection (&l, h->buf, h->s.bytes.size (), 0, (rl ? MSF_RECORDLIST : MSF_UNPACKDATA) | MSF_VALIDATECRC, h->tol, unp ? h->sel : NULL, 0));
      if (rl) for (MS3TraceID *i = l->traces.next[0]; i; i = i->next[0]) for (MS3TraceSeg *g = i->first; g; g = g->next) o += fmt ("%lld ", (long long)mstl3_unpack_recordlist (i, g, NULL, 0, 0));
      put_list (o, l); mstl3_free (&l, 0); break;
    case 2:
      { Str p; int64_t ps = 0; int c = msr3_pack (m, rec_out, &p, &ps, MSF_FLUSHDATA | (unp ? MSF_PACKVER2 : 0), 0); o += fmt ("%d %lld ", c, (long long)ps) + p; Str b (m->reclen + 512, 0); if (m->formatversion == 3 || rl) { int n = msr3_repack_mseed3 (m, &b[0], b.size (), 0); o += fmt ("%d ", n) + (n > 0 ? b.substr (0, n) : Str ()); } break; }
    case 3:
      { msr3_print (m, 2); MS3Record *d = msr3_duplicate (m, 1); if (d) { put (o, capture (d, 0)); d->record = NULL; msr3_free (&d); } if (m->formatversion == 3) ms_parse_raw3 (m->record, m->reclen, 2); else ms_parse_raw2 (m->record, m->reclen, 2, -1); uint32_t a = 0, b = 0; o += fmt ("%d %u %u ", msr3_data_bounds (m, &a, &b), a, b); break; }
    case 4:
      for (auto q : h->msr) { const MS3SelectTime *w = NULL; const MS3Selections *s = msr3_matchselect (h->sel, q, &w); o += s ? fmt ("%s %d ", s->sidpattern, s->pubversion) : "none "; o += w ? fmt ("%lld ", (long long)w->starttime) : "- "; }
      l = mstl3_init (NULL); for (auto q : h->msr) { MS3RecordPtr *rp = NULL; o += mstl3_addmsr_recordptr (l, q, rl ? &rp : NULL, 0, 1, 0, h->tol) ? "+" : "-"; } put_list (o, l);
      // record lists refer to copies of the shared structures
      mstl3_free (&l, 0); break;
    default:
      { double d = 0; int64_t i = 0; char s[200]; LM_PARSED_JSON *ps = NULL; o += fmt ("%d", mseh_get_ptr_r (m, "/FDSN/Time/Quality", &d, 'n', 0, &ps)); o += fmt ("%d", mseh_get_ptr_r (m, "/FDSN/Time/LeapSecond", &i, 'i', 0, &ps)); o += fmt ("%d", mseh_get_ptr_r (m, "/FDSN/Sequence", s, 's', sizeof s, &ps)); o += fmt (" %g %lld", d, (long long)i); mseh_free_parsestate (&ps); mseh_print (m, 1); o += fmt (" %lld %.9g", (long long)msr3_endtime (m), msr3_sampratehz (m)); }
    }
  };
}
static Task t_headers (int id)
{
  GenOpt g; g.v2 = false; RefRec r = gen_record (g); int n = 1 + choose (5); uint64_t seed = choose (1 << 20);
  log ("task %d: extra headers", id);
  return [=] (Str &o) {
    Rng q (seed); MS3Record *m = NULL; if (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0)) { o += "refused"; return; } LM_PARSED_JSON *ps = NULL;
    for (int i = 0; i < n; i++)
    {
      Str p = fmt ("/x/k%u", q.below (4)); double d = q.below (1000) / 8.0; int64_t v = q.below (100000); Str s = fmt ("text %u", q.below (1000));
      switch (q.below (7)) { case 6: { MSEHCalibration e; memset (&e, 0, sizeof e); strcpy (e.type, "SINE"); e.begintime = r.start; e.endtime = NSTUNSET; e.steps = -1; e.firstpulsepositive = -1; e.alternatesign = -1; e.amplitude = d; e.sineperiod = 2; e.duration = 10; strcpy (e.trigger, "AUTOMATIC"); e.continued = -1; strcpy (e.inputchannel, s.substr (0, 15).c_str ()); o += fmt ("%d ", mseh_add_calibration_r (m, NULL, &e, &ps)); break; }
      case 0: o += fmt ("%d ", mseh_set_ptr_r (m, p.c_str (), &d, 'n', &ps)); break; case 1: o += fmt ("%d ", mseh_set_ptr_r (m, p.c_str (), &v, 'i', &ps)); break; case 2: o += fmt ("%d ", mseh_set_ptr_r (m, p.c_str (), (void *)s.c_str (), 's', &ps)); break;
      case 3: { MSEHEventDetection e; memset (&e, 0, sizeof e); strcpy (e.type, "MURDOCK"); strcpy (e.detector, s.c_str ()); e.signalamplitude = d; e.signalperiod = 0.5; e.backgroundestimate = 1; e.onsettime = NSTUNSET; e.medlookback = 2; e.medpickalgorithm = 1; o += fmt ("%d ", mseh_add_event_detection_r (m, NULL, &e, &ps)); break; }
      case 4: { MSEHRecenter e; memset (&e, 0, sizeof e); strcpy (e.type, "MASS"); e.begintime = r.start; e.endtime = NSTUNSET; o += fmt ("%d ", mseh_add_recenter_r (m, NULL, &e, &ps)); break; }
      default: { MSEHTimingException e; memset (&e, 0, sizeof e); e.vcocorrection = d; e.time = r.start; e.usec = 5; e.receptionquality = 60; e.count = 1; strcpy (e.type, "EXPECTED"); strcpy (e.clockstatus, s.c_str ()); o += fmt ("%d ", mseh_add_timing_exception_r (m, NULL, &e, &ps)); } }
      double back = 0; o += fmt ("%d %g ", mseh_get_ptr_r (m, p.c_str (), &back, 'n', 0, &ps), back);
    }
    o += fmt ("%d ", mseh_serialize (m, &ps)); mseh_free_parsestate (&ps); if (m->extra) o += Str (m->extra, m->extralength); mseh_print (m, 2);
    Str p; m->reclen = 4096; int c = msr3_pack (m, rec_out, &p, NULL, MSF_FLUSHDATA, 0); o += fmt (" %d ", c) + p; msr3_free (&m);
  };
}
static Task t_small (int id)
{
  uint64_t seed = choose (1 << 20); int n = 3 + choose (20);
  log ("task %d: times, identifiers, decoding", id);
  return [=] (Str &o) {
    Rng q (seed);
    for (int i = 0; i < n; i++)
    {
      int64_t t = 1483228800000000000LL + (int64_t)(q.next () % 400000000000000000ULL); char s[64]; s[0] = 0;
      switch (q.below (10))
      {
      case 7: { uint16_t y = 1900 + q.below (200), d = 1 + q.below (365); int mo = 0, md = 0, jd = 0; o += fmt ("%d ", ms_doy2md (y, d, &mo, &md)); o += fmt ("%d %d %d ", mo, md, ms_md2doy (y, mo, md, &jd)); o += fmt ("%d\n", jd); snprintf (s, sizeof s, "%d,%d,%u:%u:%u.%u", y, d, q.below (24), q.below (60), q.below (60), q.below (1000)); o += fmt ("%lld ", (long long)ms_seedtimestr2nstime (s)); snprintf (s, sizeof s, "%d-%02u-%02uT%02u:%02u:%02u.%u", y, 1 + q.below (12), 1 + q.below (28), q.below (24), q.below (60), q.below (60), q.below (1000)); o += fmt ("%lld\n", (long long)ms_mdtimestr2nstime (s)); break; }
      case 8: { char a[24], b[24], c[24], x[24]; Str w; for (int k = q.below (12); k; k--) w += q.below (4) ? 'A' + q.below (26) : ' '; o += fmt ("%d", ms_strncpclean (a, w.c_str (), 12)); o += fmt ("%d", ms_strncpcleantail (b, w.c_str (), 12)); o += fmt ("%d", ms_strncpopen (c, w.c_str (), 8)); o += Str (a) + "|" + b + "|" + Str (c, 8) + "|"; static const char *const X[] = { "B_H_Z", "H_N_1", "L__E", "A_B_CD" }; x[0] = 0; o += fmt ("%d", ms_xchan2seedchan (x, X[q.below (4)])); o += Str (x) + "\n"; uint8_t z = 0; char ty = 0; o += fmt ("%d", ms_encoding_sizetype (q.below (40), &z, &ty)); o += fmt ("%d%c", z, ty ? ty : '-'); break; }
      case 9: { MS3Record *m = msr3_init (NULL); strcpy (m->sid, sid_for (q.below (8)).c_str ()); m->starttime = t / 1000 * 1000; m->samprate = 1 + q.below (100); m->samplecnt = m->numsamples = 0; m->encoding = 3; m->pubversion = 1 + q.below (4); m->reclen = 512; m->flags = q.below (8); static const char *const J[] = { "{\"FDSN\":{\"Time\":{\"Quality\":50}}}", "{\"FDSN\":{\"Sequence\":7}}", "{\"a\":[1,2]}" }; o += fmt ("%d ", mseh_replace (m, (char *)J[q.below (3)])); Str h (600, 0); int hl = q.below (2) ? msr3_pack_header3 (m, &h[0], h.size (), 0) : msr3_pack_header2 (m, &h[0], h.size (), 0); o += fmt ("%d ", hl); if (hl > 0) o += h.substr (0, hl); o += fmt ("%lld %.9g\n", (long long)msr3_nsperiod (m), msr3_sampratehz (m)); msr3_free (&m); break; }
      case 0: { ms_nstime2timestr (t, s, (ms_timeformat_t)q.below (6), (ms_subseconds_t)q.below (5)); o += s; o += fmt (" %lld\n", (long long)ms_timestr2nstime (s)); break; }
      case 1: { uint16_t y, d; uint8_t h, mi, se; uint32_t ns; ms_nstime2time (t, &y, &d, &h, &mi, &se, &ns); o += fmt ("%d %d %d %d %d %u %lld\n", y, d, h, mi, se, ns, (long long)ms_time2nstime (y, d, h, mi, se, ns)); break; }
      case 2: { char nn[20], st[20], lo[20], ch[20], x[20]; Str sid = sid_for (q.below (40)); o += fmt ("%d", ms_sid2nslc (sid.c_str (), nn, st, lo, ch)); o += Str (nn) + "." + st + "." + lo + "." + ch; o += fmt ("%d", ms_nslc2sid (s, sizeof s, 0, nn, st, lo, ch)); o += s; o += fmt ("%d", ms_seedchan2xchan (x, "BHZ")); o += x; o += "\n"; break; }
      case 3: { static const uint8_t E[] = { 12, 13, 14, 16, 30, 32, 33, 10, 11, 1, 3, 4, 5 }; uint8_t e = E[q.below (13)]; Str in (256, 0); for (auto &c : in) c = q.next (); if (e == 10 || e == 11) for (int f = 0; f < 4; f++) for (int w = 0; w < 4; w++) in[f * 64 + w] = 0x55; uint64_t out[64] = { 0 }; char ty = 0; int64_t c = ms_decode_data (in.data (), in.size (), e, 40, out, sizeof out, &ty, q.below (2), "X", 0); o += fmt ("%d: %lld %c ", e, (long long)c, ty ? ty : '-') + Str ((char *)out, sizeof out) + "\n"; break; }
      case 4: o += nn (ms_encodingstr (q.below (40))) + nn (ms_errorstr (-(int)q.below (12))) + fmt ("%u", ms_crc32c ((const uint8_t *)&t, 8, q.below (1000))); break;
      case 5: o += fmt ("%lld ", (long long)ms_sampletime (t, q.below (100000), 1 + q.below (200))); break;
      default: { ms_log (q.below (3), "message %u of task %d\n", q.below (1000), id); break; }
      }
    }
  };
}
static Task t_logs (int id)
{
  uint64_t seed = choose (1 << 20); int max = choose (4), n = 3 + choose (20);
  log ("task %d: log registry of %d", id, max);
  return [=] (Str &o) {
    Rng q (seed); MSLogParam *lp = NULL; lp = ms_rloginit_l (lp, t_log, "log: ", t_diag, "err: ", max); ms_rloginit (t_log, fmt ("t%d ", id).c_str () ? "t " : "", t_diag, "E ", max);
    for (int i = 0; i < n; i++)
    {
      int lev = q.below (3); Str s (q.below (q.below (4) ? 40 : 600), 'a' + q.below (26));
      switch (q.below (5)) { case 0: ms_rlog_l (lp, "fn", lev, "%d %s\n", i, s.c_str ()); break; case 1: ms_log (lev, "%d %s\n", i, s.c_str ()); break; case 2: o += fmt ("%d", ms_rlog_emit (NULL, q.below (3), q.below (2))); break; case 3: o += fmt ("%d", ms_rlog_emit (lp, q.below (3), q.below (2))); break; default: ms_rlog ("other", lev, "%s %d\n", s.c_str (), i); }
    }
    o += fmt ("%d", ms_rlog_emit (NULL, 0, 0)); o += fmt ("%d", ms_rlog_free (NULL)); o += fmt ("%d", ms_rlog_emit (lp, 0, 1)); ms_rlog_free (lp); user_free (lp);
    ms_rloginit (t_log, "", t_diag, "", 0);
  };
}
static Task t_select (int id, const Shared *h)
{
  Str text; int n = 1 + choose (5); for (int i = 0; i < n; i++) { Str s = sid_for (choose (8)); text += choose (2) ? s + "\n" : choose (2) ? s + "  2019-01-01T00:00:00 2022-06-01T00:00:00 1\n" : Str ("* * * * M 2018,1 2024,1\n"); } Str name = fmt ("t%d.sel", id); make_source (SRC_FILE, text, name); size_t mx; Stream s = mixed_stream (4, false, false, &mx); Source src = make_source (SRC_FILE, s.bytes, fmt ("t%d.mseed", id)); Str path = src.path;
  log ("task %d: selections", id);
  return [=] (Str &o) {
    MS3Selections *sel = NULL; int rc = ms3_readselectionsfile (&sel, name.c_str ()); o += fmt ("%d ", rc); if (sel) ms3_printselections (sel);
    MS3FileParam *fp = NULL; MS3Record *m = NULL; while ((rc = ms3_readmsr_selection (&fp, &m, path.c_str (), MSF_UNPACKDATA, sel, 0)) == MS_NOERROR) put (o, capture (m, 0)); o += codename (rc); ms3_readmsr_selection (&fp, &m, NULL, 0, NULL, 0);
    for (auto q : h->msr) o += msr3_matchselect (sel, q, NULL) ? "+" : "-";
    ms3_freeselections (sel);
  };
}
static void compare (int id, const Str &alone, const Str &conc)
{
  if (alone == conc) return;
  size_t i = 0; while (i < alone.size () && i < conc.size () && alone[i] == conc[i]) i++;
  auto show = [&] (const Str &s) { Str o; for (size_t k = i < 40 ? 0 : i - 40; k < s.size () && k < i + 60; k++) o += s[k] >= 32 && s[k] < 127 ? s[k] : '.'; return o; };
  violate ("threads:differs", "thread %d gives another result than alone, from byte %zu of %zu/%zu: '%s' instead of '%s'", id, i, alone.size (), conc.size (), show (conc).c_str (), show (alone).c_str ());
}
static void together (const std::vector<Task> &tasks, int policy)
{
  size_t n = tasks.size (); std::vector<Str> alone (n), conc (n);
  auto body = [&] (size_t i, Str *o) { t_out = o; ms_rloginit (t_log, "", t_diag, "", 0); size_t b = 0; (void)b; tasks[i](*o); t_out = NULL; };
  for (size_t i = 0; i < n; i++) threads ({ [&, i] { body (i, &alone[i]); } }, 3);
  size_t live0 = live_blocks ();
  std::vector<std::function<void ()>> v; for (size_t i = 0; i < n; i++) v.push_back ([&, i] { body (i, &conc[i]); });
  threads (v, policy);
  for (size_t i = 0; i < n; i++) { hashs (alone[i]); compare (i, alone[i], conc[i]); }
  NEED (live_blocks () == live0, "threads:leak", "memory is left over after running together: %s", live_desc ().c_str ());
}
static Task any (int id, const Shared *h)
{
  switch (choose (9)) { case 0: return t_read (id); case 1: return t_list (id); case 2: return t_pack (id, *h); case 3: case 4: return t_shared (id, h); case 5: return t_headers (id); case 6: return t_logs (id); case 7: return t_select (id, h); default: return t_small (id); }
}
SCENARIO (C10, mix)
{
  sim_setup (); Shared h = make_shared (); int n = 2 + choose (3); std::vector<Task> t; nontrivial ();
  for (int i = 0; i < n; i++) t.push_back (any (i, &h));
  together (t, choose (4));
}
// the same kind of work in every thread
SCENARIO (C10, alike)
{
  sim_setup (); Shared h = make_shared (); int n = 2 + choose (2), kind = choose (8); std::vector<Task> t; nontrivial ();
  for (int i = 0; i < n; i++) switch (kind) { case 0: t.push_back (t_read (i)); break; case 1: t.push_back (t_list (i)); break; case 2: t.push_back (t_pack (i, h)); break; case 3: t.push_back (t_shared (i, &h)); break; case 4: t.push_back (t_headers (i)); break; case 5: t.push_back (t_logs (i)); break; case 6: t.push_back (t_select (i, &h)); break; default: t.push_back (t_small (i)); }
  together (t, choose (4));
}
// everybody works on the same read-only input
SCENARIO (C10, shared)
{
  sim_setup (); Shared h = make_shared (); int n = 2 + choose (3); std::vector<Task> t; nontrivial ();
  for (int i = 0; i < n; i++) t.push_back (t_shared (i, &h));
  together (t, choose (4));
}
