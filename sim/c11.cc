// C11: running out of memory is an error, never a crash or silent loss
#include "scn.h"
using namespace sim;

struct Op
{
  Str name;
  std::function<void ()> setup;
  std::function<bool (Str &)> op;   // false: reported as failed
  std::function<Str ()> state;      // what must be kept
  std::function<void ()> cleanup;
  bool atomic = true, retry = true;
};
static const int64_t FOREVER = 1000000000;
static void check (Op p, int tries = 3)
{
  size_t base = live_blocks (); Str ref; p.setup (); alloc_reset (); bool ok = p.op (ref); uint64_t calls = alloc_calls (); Str st1 = p.state (); p.cleanup ();
  NEED (ok, "alloc:reference", "%s fails although memory is available", p.name.c_str ());
  NEED (live_blocks () == base, "alloc:leak", "%s leaves memory behind: %s", p.name.c_str (), live_desc ().c_str ());
  if (!calls) { probe ("no-allocation"); return; }
  nontrivial (); hashs (ref); hashs (st1);
  for (int i = 0; i < tries; i++)
  {
    uint64_t k = choose (calls); int64_t cnt = choose (3) == 2 ? FOREVER : choose (3) == 2 ? 2 : 1; Str r, r2;
    p.setup (); Str st0 = p.state (); alloc_reset (); alloc_fail_at (k, cnt); ok = p.op (r); bool failed = alloc_failed () > 0; alloc_fail_off ();
    log ("%s: allocation %llu of %llu fails%s: %s", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls, cnt == FOREVER ? " and all later ones" : "", ok ? "reported as success" : "reported as failed");
    if (ok) { NEED (r == ref, "alloc:silent", "%s: allocation %llu of %llu fails and the result is reported as success but differs", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls); NEED (p.state () == st1, "alloc:silent", "%s: allocation %llu of %llu fails, success is reported but the outcome differs", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls); }
    else
    {
      NEED (failed, "alloc:reference", "%s fails without cause", p.name.c_str ());
      if (p.atomic) { Str s = p.state (); NEED (s == st0, "alloc:changed", "%s: the failed call (allocation %llu of %llu) changes what was there: %s", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls, [&] { size_t i = 0; while (i < s.size () && i < st0.size () && s[i] == st0[i]) i++; Str o = fmt ("at %zu of %zu/%zu: '", i, st0.size (), s.size ()); for (size_t j = i > 30 ? i - 30 : 0; j < i + 50 && j < s.size (); j++) o += s[j] >= 32 && s[j] < 127 ? s[j] : '.'; return o + "'"; } ().c_str ()); }
      else p.state ();
      if (p.retry) { ok = p.op (r2); NEED (ok, "alloc:retry", "%s: with memory available again the call still fails (allocation %llu of %llu had failed)", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls); NEED (r2 == ref && p.state () == st1, "alloc:retry", "%s: the repeated call gives another result (allocation %llu of %llu had failed)", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls); }
    }
    p.cleanup ();
    NEED (live_blocks () == base, "alloc:leak", "%s: after allocation %llu of %llu failed memory is left behind: %s", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls, live_desc ().c_str ());
  }
}
static Str gotstr (const Got &g) { return describe (g) + "|" + g.raw + "|" + g.extra + "|" + g.samples + "\n"; }
static Str full (const MS3TraceList *l)
{
  if (!l) return "(none)";
  check_list (l, true, "after a failed allocation", true);
  Str s = seginfo (l);
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next)
  {
    s += fmt ("%lld %c ", (long long)g->numsamples, g->sampletype ? g->sampletype : '-'); if (g->datasamples) s += Str ((char *)g->datasamples, g->numsamples * ms_samplesize (g->sampletype));
    if (g->recordlist) for (MS3RecordPtr *q = g->recordlist->first; q; q = q->next) s += fmt ("[%s %lld %lld %p %lld %u]", q->msr ? q->msr->sid : "?", q->msr ? (long long)q->msr->starttime : 0, q->msr ? (long long)q->msr->samplecnt : 0, (void *)q->bufferptr, (long long)q->fileoffset, q->dataoffset);
  }
  return s;
}
static void rec_out (char *rec, int len, void *h) { ((std::vector<Str> *)h)->push_back (Str (rec, len)); }

SCENARIO (C11, record)
{
  sim_setup ();
  GenOpt o; o.max_len = 20000; RefRec r = gen_record (o), q = gen_record (o); bool unp = choose (3) != 2, reuse = choose (2); int details = choose (3);
  MS3Record *m = NULL, *d = NULL; MS3Record keep; Op p; const char *buf = ro_copy (r.raw);
  auto parse = [&] (const RefRec &x, uint32_t f) { NEED (msr3_parse (x.raw.data (), x.raw.size (), &m, f, 0) == 0, "deliver:parse", "refused"); };
  auto st = [&] () -> Str { return m ? gotstr (capture (m, 0)) : Str ("none"); };
  switch (choose (9))
  {
  case 0: p = { "msr3_parse", [&] { if (reuse) parse (q, MSF_UNPACKDATA); }, [&] (Str &o) { int rc = msr3_parse (buf, r.raw.size (), &m, unp ? MSF_UNPACKDATA : 0, 0); if (rc) { NEED (rc < 0, "alloc:silent", "msr3_parse asks for %d more bytes", rc); return false; } o = gotstr (capture (m, 0)); return true; }, [&] { if (m) gotstr (capture (m, 0)); return Str (); }, [&] { msr3_free (&m); }, false, true }; break;
  case 1: p = { "msr3_unpack_data", [&] { parse (r, 0); m->record = buf; }, [&] (Str &o) { int64_t n = msr3_unpack_data (m, 0); if (n < 0) return false; o = gotstr (capture (m, 0)); return true; }, st, [&] { msr3_free (&m); }, true, true }; break;
  case 2: p = { "msr3_duplicate", [&] { parse (r, MSF_UNPACKDATA); m->record = NULL; }, [&] (Str &o) { d = msr3_duplicate (m, unp); if (!d) return false; o = fmt ("%s %lld %lld ", d->sid, (long long)d->starttime, (long long)d->numsamples) + (d->extra ? Str (d->extra, d->extralength) : Str ()) + (d->datasamples ? Str ((char *)d->datasamples, d->numsamples * ms_samplesize (d->sampletype)) : Str ()); return true; }, [&] { Str s = fmt ("%s %lld ", m->sid, (long long)m->numsamples); if (m->datasamples) s += Str ((char *)m->datasamples, m->numsamples * ms_samplesize (m->sampletype)); return s; }, [&] { msr3_free (&m); msr3_free (&d); }, true, true }; break;
  case 3: p = { "msr3_resize_buffer", [&] { libmseed_prealloc_block_size = 100000; parse (r, MSF_UNPACKDATA); m->record = NULL; }, [&] (Str &o) { return msr3_resize_buffer (m) >= 0; }, [&] { Str s = fmt ("%lld ", (long long)m->numsamples); if (m->datasamples) s += Str ((char *)m->datasamples, m->numsamples * ms_samplesize (m->sampletype)); return s; }, [&] { msr3_free (&m); }, true, true }; break;
  case 4: case 5:
    {
      bool v2 = choose (2), prev2 = r.fmt == 2; (void)prev2; int reclen = 256 << choose (4); static const int E[] = { -1, 3, 11, 10 }; int enc = r.s.type == 'i' ? E[choose (4)] : -1; std::vector<Str> recs; int64_t ps = 0; Str dummy;
      auto setup = [&, v2, reclen, enc] { parse (r, MSF_UNPACKDATA); keep = *m; m->reclen = reclen; m->encoding = enc; m->formatversion = v2 ? 2 : 3; };
      // a first look whether it can be packed at all
      setup (); int rc = msr3_pack (m, rec_out, &recs, &ps, MSF_FLUSHDATA | (v2 ? MSF_PACKVER2 : 0), 0); msr3_free (&m); if (rc <= 0) return;
      p = { "msr3_pack", setup, [&, v2] (Str &o) { recs.clear (); ps = -5; int rc = msr3_pack (m, rec_out, &recs, &ps, MSF_FLUSHDATA | (v2 ? MSF_PACKVER2 : 0), 0); if (rc < 0) return false; o = fmt ("%d %lld ", rc, (long long)ps); for (auto &x : recs) o += x; NEED (rc == (int)recs.size (), "alloc:silent", "msr3_pack reports %d records of %zu", rc, recs.size ()); return true; }, [&] { Str s = fmt ("%s %d %lld ", m->sid, m->reclen, (long long)m->numsamples); if (m->datasamples) s += Str ((char *)m->datasamples, m->numsamples * ms_samplesize (m->sampletype)); if (m->extra) s += Str (m->extra, m->extralength); return s; }, [&] { msr3_free (&m); }, true, true };
      check (p); return;
    }
  case 6:
    {
      static Str out; out.assign (r.raw.size () + 1000, 0); parse (r, 0); m->record = buf; int can = msr3_repack_mseed3 (m, &out[0], out.size (), 0); msr3_free (&m); if (can < 0) return;
      p = { "msr3_repack_mseed3", [&] { parse (r, 0); m->record = buf; }, [&] (Str &o) { int n = msr3_repack_mseed3 (m, &out[0], out.size (), 0); if (n < 0) return false; o = out.substr (0, n); return true; }, st, [&] { msr3_free (&m); }, true, true }; break;
    }
  case 7: parse (r, 0); m->record = buf; capture_logs (); LogCapture::reset (); msr3_print (m, details); quiet_logs (); msr3_free (&m); if (LogCapture::diag.size ()) return;
    p = { "msr3_print", [&] { parse (r, 0); m->record = buf; capture_logs (); }, [&] (Str &o) { LogCapture::reset (); msr3_print (m, details); if (LogCapture::diag.size ()) return false; o = LogCapture::out; return true; }, [&] { return Str (); }, [&] { msr3_free (&m); quiet_logs (); }, false, true }; break;
  default: capture_logs (); LogCapture::reset (); r.fmt == 3 ? ms_parse_raw3 (buf, r.raw.size (), details) : ms_parse_raw2 (buf, r.raw.size (), details, -1); quiet_logs (); if (LogCapture::diag.size ()) return;
    p = { r.fmt == 3 ? "ms_parse_raw3" : "ms_parse_raw2", [&] { capture_logs (); }, [&] (Str &o) { LogCapture::reset (); int rc = r.fmt == 3 ? ms_parse_raw3 (buf, r.raw.size (), details) : ms_parse_raw2 (buf, r.raw.size (), details, -1); if (LogCapture::diag.size ()) return false; o = fmt ("%d ", rc) + LogCapture::out; return true; }, [&] { return Str (); }, [&] { quiet_logs (); }, false, true }; break;
  }
  check (p);
}
SCENARIO (C11, tracelist)
{
  sim_setup ();
  int n = 1 + choose (6); std::vector<RefRec> rs; GenOpt o; o.max_len = 8000; o.max_samples = 150; o.sidpool = 3; GenOpt o1 = o; o1.text = false;
  for (int i = 0; i < n; i++)
  {
    if (rs.size () && choose (2)) { const RefRec &t = pick (rs); if (t.nsamp () > 0) { RefRec r = make_piece (t, choose (3) == 2 ? t.start - (t.end () + t.period () - t.start) : t.end () + t.period (), t.s); if (r.raw.size ()) { rs.push_back (r); continue; } } }
    { RefRec r = gen_record (o); if (!r.pubver) { r.pubver = 1; if (!build (r)) harness_error ("build"); } rs.push_back (r); }
  }
  if (choose (3) == 2) { auto pm = permutation (rs.size ()); std::vector<RefRec> t; for (size_t i : pm) t.push_back (rs[i]); rs = t; }
  // the record that joins two segments
  bool joint = false;
  if (choose (6) == 5)
  {
    RefRec a = gen_record (o1); if (!a.pubver) a.pubver = 1;
    if (build (a) && a.nsamp () > 0 && a.period () > 0) { RefRec b = make_piece (a, a.end () + a.period (), a.s), c = make_piece (b, b.end () + b.period (), a.s); if (b.raw.size () && c.raw.size ()) { if (choose (2)) rs = { a, c, b }; else rs = { c, a, b }; n = 3; joint = true; } }
  }
  MS3TraceList *l = NULL; MS3Record *m = NULL; bool unp = choose (3) != 2, rl = choose (2), split = choose (2); size_t mx = 64; Str all;
  // some records may be added without their samples
  std::vector<bool> bare (n, false); if (choose (4) == 3) for (int i = 0; i < n; i++) bare[i] = choose (2); if (joint && choose (2)) bare[0] = bare[1] = false, bare[2] = true;
  auto flags_of = [&] (const RefRec &r) -> uint32_t { return unp && !bare[&r - &rs[0]] ? MSF_UNPACKDATA : 0; };
  for (auto &r : rs) { mx = std::max (mx, r.raw.size ()); all += r.raw; } size_t half = joint ? 2 : choose (n);
  const char *buf = ro_copy (all); tune_buffer (std::max<size_t> (mx, 4096)); Op p;
  auto add = [&] (const RefRec &r, bool must) { if (msr3_parse (r.raw.data (), r.raw.size (), &m, flags_of (r), 0)) return false; MS3RecordPtr *rp = NULL; MS3TraceSeg *g = rl ? mstl3_addmsr_recordptr (l, m, &rp, split, 1, 0, NULL) : mstl3_addmsr (l, m, split, 1, 0, NULL); if (must && !g) return true; return g != NULL; };
  auto upto = [&] (size_t k) { l = mstl3_init (NULL); for (size_t i = 0; i < k; i++) add (rs[i], true); };
  auto st = [&] { return full (l); };
  auto clean = [&] { msr3_free (&m); if (l) mstl3_free (&l, 0); };
  int64_t ps = 0; std::vector<Str> recs;
  // a piece whose kind does not fit what is there is refused by design
  auto fits = [&] { upto (half); bool ok = add (rs[half], false); clean (); return ok; };
  switch (choose (8))
  {
  case 0: case 1: if (!fits ()) return; p = { "mstl3_addmsr", [&] { upto (half); msr3_parse (rs[half].raw.data (), rs[half].raw.size (), &m, flags_of (rs[half]), 0); }, [&] (Str &o) { MS3RecordPtr *rp = NULL; return (rl ? mstl3_addmsr_recordptr (l, m, &rp, split, 1, 0, NULL) : mstl3_addmsr (l, m, split, 1, 0, NULL)) != NULL; }, st, clean, true, true }; break;
  case 2:
    { upto (0); int64_t c = mstl3_readbuffer (&l, buf, all.size (), split, (unp ? MSF_UNPACKDATA : 0) | (rl ? MSF_RECORDLIST : 0), NULL, 0); clean (); if (c < 0) return; }
    p = { "mstl3_readbuffer", [&] {}, [&] (Str &o) { if (l) mstl3_free (&l, 0); int64_t c = mstl3_readbuffer (&l, buf, all.size (), split, (unp ? MSF_UNPACKDATA : 0) | (rl ? MSF_RECORDLIST : 0), NULL, 0); if (c < 0) return false; o = fmt ("%lld", (long long)c); return true; }, st, clean, false, true }; break;
  case 3:
    { static char path[] = "in.mseed"; file (path).data = all; int rc = ms3_readtracelist (&l, path, NULL, split, (unp ? MSF_UNPACKDATA : 0) | (rl ? MSF_RECORDLIST : 0), 0); clean (); if (rc) return;
    p = { "ms3_readtracelist", [&] {}, [&] (Str &o) { if (l) mstl3_free (&l, 0); int rc = ms3_readtracelist (&l, path, NULL, split, (unp ? MSF_UNPACKDATA : 0) | (rl ? MSF_RECORDLIST : 0), 0); NEED (rc <= 0 && rc != MS_ENDOFFILE, "alloc:silent", "ms3_readtracelist gives %d", rc); return rc == 0; }, st, clean, false, true }; break; }
  case 4:
    {
      rl = true; static uint64_t which; which = choose (16);
      auto seg = [&] (MS3TraceID **i) { uint64_t k = 0; std::vector<std::pair<MS3TraceID *, MS3TraceSeg *>> v; for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) v.push_back ({ id, g }); k = which % v.size (); *i = v[k].first; return v[k].second; };
      bool viafile = choose (2); static char path[] = "in.mseed"; file (path).data = all;
      auto setup = [&, viafile] { if (viafile) ms3_readtracelist (&l, path, NULL, split, MSF_RECORDLIST, 0); else mstl3_readbuffer (&l, buf, all.size (), split, MSF_RECORDLIST, NULL, 0); };
      setup (); MS3TraceID *i0; MS3TraceSeg *g0 = seg (&i0); int64_t c0 = mstl3_unpack_recordlist (i0, g0, NULL, 0, 0); clean (); if (c0 < 0) return;
      p = { "mstl3_unpack_recordlist", setup, [&] (Str &o) { MS3TraceID *id; MS3TraceSeg *g = seg (&id); int64_t c = mstl3_unpack_recordlist (id, g, NULL, 0, 0); if (c < 0) return false; o = fmt ("%lld", (long long)c); return true; }, st, clean, true, true }; check (p); return;
    }
  case 5:
    {
      unp = true; rl = false; static char ty; ty = "ifd"[choose (3)]; static int8_t trunc; trunc = choose (2);
      auto first = [&] () -> MS3TraceSeg * { for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) if (g->numsamples && g->sampletype != 't') return g; return NULL; };
      upto (n); MS3TraceSeg *g0 = first (); int rc = g0 ? mstl3_convertsamples (g0, ty, trunc) : -1; clean (); if (rc) return;
      p = { "mstl3_convertsamples", [&] { upto (n); }, [&] (Str &o) { return mstl3_convertsamples (first (), ty, trunc) == 0; }, st, clean, true, true }; check (p); return;
    }
  case 6:
    { unp = true; upto (n); static const int E[] = { -1, 3, 11 }; static int enc; enc = E[choose (3)]; static uint32_t fl; fl = MSF_FLUSHDATA | (choose (3) == 2 ? MSF_PACKVER2 : 0); int64_t c = mstl3_pack (l, rec_out, &recs, 512, enc, &ps, fl, 0, NULL); clean (); if (c <= 0) return; Str whole; for (auto &r : recs) whole += r; static size_t total; total = recs.size ();
    // records emitted before and after the failure together
    unp = true; upto (n); recs.clear (); mstl3_pack (l, rec_out, &recs, 512, enc, &ps, fl, 0, NULL); whole.clear (); std::multiset<Str> w; for (auto &r : recs) { RefRec q; if (!decode_rec (r.data (), r.size (), q)) harness_error ("packed"); w.insert (q.sid + " " + q.s.bytes ()); } clean ();
    size_t base = live_blocks (); std::multiset<Str> h; upto (n); recs.clear (); alloc_reset (); alloc_fail_at (choose (total * 2 + 3)); nontrivial (); c = mstl3_pack (l, rec_out, &recs, 512, enc, &ps, fl, 0, NULL); bool failed = alloc_failed (); alloc_fail_off ();
    log ("mstl3_pack with a failing allocation: %lld records, %zu emitted", (long long)c, recs.size ()); full (l); if (c < 0) NEED (failed, "alloc:reference", "mstl3_pack fails without cause"); else NEED (c == (int64_t)recs.size (), "alloc:silent", "mstl3_pack reports %lld of %zu records", (long long)c, recs.size ());
    c = mstl3_pack (l, rec_out, &recs, 512, enc, &ps, fl, 0, NULL); NEED (c >= 0, "alloc:retry", "mstl3_pack still fails"); for (auto &r : recs) { RefRec q; if (!decode_rec (r.data (), r.size (), q)) violate ("alloc:silent", "an invalid record is packed"); h.insert (q.sid + " " + q.s.bytes ()); }
    Str zero; std::multiset<Str> w2, h2; for (auto &x : w) if (x[x.size () - 1] != ' ') w2.insert (x); for (auto &x : h) if (x[x.size () - 1] != ' ') h2.insert (x);
    NEED (w2 == h2, "alloc:lost", "after an allocation failure and a second call the records packed hold other data"); clean (); NEED (live_blocks () == base, "alloc:leak", "memory left behind: %s", live_desc ().c_str ()); return; }
  default:
    { if (choose (2)) { p = { "mstl3_init", [&] {}, [&] (Str &o) { l = mstl3_init (NULL); return l != NULL; }, [&] { return Str (); }, clean, true, true }; break; }
    unp = true; libmseed_prealloc_block_size = 50000; p = { "mstl3_resize_buffers", [&] { upto (n); }, [&] (Str &o) { return mstl3_resize_buffers (l) >= 0; }, st, clean, true, true }; }
  }
  check (p);
}
// extra headers
SCENARIO (C11, headers)
{
  sim_setup ();
  GenOpt o; o.max_samples = 10; RefRec r = gen_record (o); MS3Record *m = NULL; LM_PARSED_JSON *ps = NULL; static double d; static int64_t v; d = choose (1000) / 8.0; v = choose (1000); int what = choose (9); bool parsed = choose (2); static Str note; note = choose (2) ? "some text" : Str (4000, 'n'); static const char *at; at = parsed && choose (2) ? "/x/before" : what ? "/FDSN/Note" : "/x/deep/value";
  auto setup = [&] { NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, 0, 0) == 0, "deliver:parse", "refused"); m->record = NULL; if (parsed) { Str s = "before"; mseh_set_ptr_r (m, "/x/before", (void *)s.c_str (), 's', &ps); } };
  // the document as it would be serialised
  auto st = [&] { Str s; char *x = m->extra ? m->extra : (char *)""; s = Str (x, m->extralength); return s; };
  auto doc = [&] { if (mseh_serialize (m, &ps) < 0) return false; return true; };
  static MSEHEventDetection e; memset (&e, 0, sizeof e); strcpy (e.type, "MURDOCK"); strcpy (e.detector, "X"); e.signalamplitude = 2; e.signalperiod = 0.5; e.backgroundestimate = 1; e.onsettime = r.start; e.medlookback = 2; e.medpickalgorithm = 1;
  static MSEHCalibration c; memset (&c, 0, sizeof c); strcpy (c.type, "STEP"); c.begintime = r.start; c.endtime = NSTUNSET; c.steps = 2; c.amplitude = 3; c.duration = 4; c.firstpulsepositive = 1; strcpy (c.inputchannel, "BC0");
  static MSEHRecenter rc; memset (&rc, 0, sizeof rc); strcpy (rc.type, "MASS"); rc.begintime = r.start; rc.endtime = NSTUNSET;
  static MSEHTimingException te; memset (&te, 0, sizeof te); te.vcocorrection = 1; te.time = r.start; te.usec = 3; te.receptionquality = 7; te.count = 2; strcpy (te.type, "T"); strcpy (te.clockstatus, "C");
  static const char *NAME[] = { "mseh_set_ptr_r number", "mseh_set_ptr_r string", "mseh_add_event_detection_r", "mseh_add_calibration_r", "mseh_add_timing_exception_r", "mseh_add_recenter_r", "mseh_serialize", "mseh_replace", "mseh_get_ptr_r" };
  auto apply = [&, what] () -> int {
    switch (what) { case 0: return mseh_set_ptr_r (m, at, &d, 'n', &ps); case 1: return mseh_set_ptr_r (m, at, (void *)note.c_str (), 's', &ps); case 2: return mseh_add_event_detection_r (m, NULL, &e, &ps); case 3: return mseh_add_calibration_r (m, NULL, &c, &ps); case 4: return mseh_add_timing_exception_r (m, NULL, &te, &ps); case 5: return mseh_add_recenter_r (m, NULL, &rc, &ps); case 6: return mseh_set_ptr_r (m, "/x/n", &v, 'i', &ps) || mseh_serialize (m, &ps) < 0; case 7: return mseh_replace (m, (char *)"{\"new\":{\"document\":[1,2,3]}}") < 0; default: { double x = 0; return mseh_get_ptr_r (m, "/x/before", &x, 'n', 0, &ps) < 0; } } };
  Op p = { NAME[what], setup, [&] (Str &o) { if (apply () != 0) return false; if (!doc ()) return false; o = Str (m->extra ? m->extra : "", m->extralength); return true; }, st, [&] { mseh_free_parsestate (&ps); msr3_free (&m); }, false, false };
  // a document must stay a valid one, whatever fails; a retry from it adds what is missing once at most for plain values
  size_t base = live_blocks (); Str ref; p.setup (); alloc_reset (); bool ok = p.op (ref); uint64_t calls = alloc_calls (); p.cleanup (); NEED (live_blocks () == base, "alloc:leak", "%s leaves memory behind: %s", p.name.c_str (), live_desc ().c_str ());
  if (!ok) return; nontrivial ();
  std::map<Str, Str> lref; NEED (ref.empty () || flatten_json (ref, lref), "alloc:document", "%s gives an invalid document", p.name.c_str ());
  setup (); std::map<Str, Str> lraw; if (m->extralength) flatten_json (Str (m->extra, m->extralength), lraw); doc (); Str before (m->extra ? m->extra : "", m->extralength); p.cleanup (); std::map<Str, Str> lbef; if (before.size ()) flatten_json (before, lbef);
  for (int i = 0; i < 3; i++)
  {
    uint64_t k = choose (calls ? calls : 1); int64_t cnt = choose (3) == 2 ? FOREVER : 1; Str out; p.setup (); alloc_reset (); alloc_fail_at (k, cnt); int rc = apply (); bool failed = alloc_failed () > 0; bool dok = doc (); bool failed2 = alloc_failed () > 0; alloc_fail_off ();
    log ("%s: allocation %llu of %llu fails: %d, serialising %d", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls, rc, (int)dok);
    NEED (rc == 0 || failed, "alloc:reference", "%s fails without cause", p.name.c_str ()); NEED (dok || failed2, "alloc:reference", "mseh_serialize fails without cause");
    std::map<Str, Str> l1; Str x (m->extra ? m->extra : "", m->extralength);
    NEED (x.empty () || flatten_json (x, l1), "alloc:document", "%s: after the failed allocation the extra headers are not a JSON document: %s", p.name.c_str (), x.substr (0, 200).c_str ());
    if (rc == 0 && dok) NEED (l1 == lref, "alloc:silent", "%s: allocation %llu of %llu fails, success is reported but the document differs: %s instead of %s", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls, x.substr (0, 300).c_str (), ref.substr (0, 300).c_str ());
    // what was there before is kept
    if (what != 7 && (rc != 0 || !dok)) for (auto &y : lraw) NEED (l1.count (y.first) && (l1[y.first] == y.second || (lref.count (y.first) && l1[y.first] == lref[y.first])), "alloc:lost", "%s: a failed allocation (%llu of %llu) loses %s of the extra headers: now %s", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls, y.first.c_str (), x.substr (0, 300).c_str ());
    if (what == 7 && rc != 0 && !dok) NEED (l1 == lraw, "alloc:lost", "%s fails and the extra headers are %s", p.name.c_str (), x.substr (0, 300).c_str ());
    bool ok2 = doc (); NEED (ok2, "alloc:retry", "mseh_serialize still fails after %s", p.name.c_str ()); Str x2 (m->extra ? m->extra : "", m->extralength); std::map<Str, Str> l2; NEED (x2.empty () || flatten_json (x2, l2), "alloc:document", "%s: invalid document", p.name.c_str ());
    if (rc != 0 && what != 7) for (auto &y : lbef) NEED (l2.count (y.first) && l2[y.first] == y.second, "alloc:lost", "%s: a failed allocation (%llu of %llu) loses %s of the document: now %s", p.name.c_str (), (unsigned long long)k, (unsigned long long)calls, y.first.c_str (), x2.substr (0, 300).c_str ());
    if (rc != 0) { int r2 = apply (); NEED (r2 == 0 && doc (), "alloc:retry", "%s still fails with memory available", p.name.c_str ()); l2.clear (); flatten_json (Str (m->extra ? m->extra : "", m->extralength), l2); for (auto &y : lref) NEED (l2.count (y.first) && (l2[y.first] == y.second), "alloc:retry", "%s repeated: %s is missing or wrong: %.*s", p.name.c_str (), y.first.c_str (), (int)m->extralength, m->extra ? m->extra : ""); if (what != 2 && what != 3 && what != 4 && what != 5) NEED (l2 == lref, "alloc:retry", "%s repeated: the document differs", p.name.c_str ()); else NEED (l2.size () == lref.size (), "alloc:retry", "%s repeated: the failed call had left part of an entry: %.*s", p.name.c_str (), (int)m->extralength, m->extra ? m->extra : ""); }
    p.cleanup (); NEED (live_blocks () == base, "alloc:leak", "%s: memory is left behind: %s", p.name.c_str (), live_desc ().c_str ());
  }
}
// readers: the records before, an error, and the rest on the next tries
SCENARIO (C11, reader)
{
  sim_setup ();
  size_t mx; Stream s = mixed_stream (8, choose (4) == 3, false, &mx); tune_buffer (mx); SrcKind k = choose (3) == 2 ? SRC_URL : SRC_FILE; Source src = make_source (k, s.bytes, "in"); uint32_t fl = (choose (2) ? MSF_UNPACKDATA : 0) | MSF_VALIDATECRC | (choose (3) == 2 ? MSF_SKIPNOTDATA : 0); bool unp = fl & MSF_UNPACKDATA; nontrivial ();
  size_t base = live_blocks (); MS3FileParam *fp = NULL; MS3Record *m = NULL; int rc; alloc_reset ();
  if (choose (2))
  { // count first
    while ((rc = ms3_readmsr_r (&fp, &m, src.path.c_str (), fl, 0)) == MS_NOERROR) {} ms3_readmsr_r (&fp, &m, NULL, 0, 0);
  }
  uint64_t calls = alloc_calls (); NEED (live_blocks () == base, "alloc:leak", "reading leaves memory behind: %s", live_desc ().c_str ());
  alloc_reset (); bool net = k == SRC_URL && choose (2); int64_t times = choose (3) == 2 ? 1 + choose (4) : 1; if (net) net_fail_at (choose (2) ? choose (10) : logsize (300), times); else alloc_fail_at (choose (calls ? calls : 4), times); size_t at = 0; int errors = 0; bool give_up = choose (3) == 2;
  for (int i = 0; i < 200; i++)
  {
    rc = ms3_readmsr_r (&fp, &m, src.path.c_str (), fl, 0);
    if (rc == MS_ENDOFFILE) break;
    if (rc == MS_NOERROR)
    {
      NEED (at < s.recs.size (), "alloc:extra", "more records than there are");
      Str d = diff_got (capture (m, fp->streampos - m->reclen), s.recs[at], s.offs[at], unp); NEED (d.empty (), "alloc:silent", "record %zu after %d failed calls: %s", at, errors, d.c_str ()); at++;
    }
    else { log ("call %d: %s", i, codename (rc)); NEED (alloc_failed () + net_mem_failed () > 0, "alloc:reference", "reading fails without cause: %s", codename (rc)); errors++; if (errors > 20 || give_up) break; }
  }
  log ("%zu of %zu records, %d failed calls, %llu failed allocations, last %s", at, s.recs.size (), errors, (unsigned long long)(alloc_failed () + net_mem_failed ()), codename (rc)); bool f = alloc_failed () + net_mem_failed () > 0; alloc_fail_off (); net_fail_off ();
  if (rc == MS_ENDOFFILE) NEED (at == s.recs.size (), "alloc:lost", "a failed allocation loses %zu of %zu records and reading ends with end of data (%d calls reported failure)", s.recs.size () - at, s.recs.size (), errors);
  else NEED (f, "alloc:reference", "reading does not end");
  ms3_readmsr_r (&fp, &m, NULL, 0, 0); NEED (live_blocks () == base && open_streams () == 0 && open_handles () == 0, "alloc:leak", "after a failed allocation something is left: %s, %d streams, %d handles", live_desc ().c_str (), open_streams (), open_handles ());
  if (rc != MS_ENDOFFILE && rc < 0) { ReadOut o = read_all (src, fl, NULL, -1, 0); expect_exact (o, s, 0, s.recs.size (), unp, "afresh"); }
}
// selections, leap seconds, logs, descriptors, headers of requests
SCENARIO (C11, control)
{
  sim_setup (); Op p; MS3Selections *sel = NULL; static Str s1, s2; s1 = sid_for (choose (8)); s2 = choose (2) ? s1 : sid_for (choose (8)); Str text; int n = 1 + choose (4);
  for (int i = 0; i < n; i++) { Str s = sid_for (choose (8)); text += choose (2) ? s + "\n" : choose (2) ? s + "  2019-01-01T00:00:00 2022-06-01T00:00:00 1\n" : Str ("* * * * M 2018,1 2024,1\n"); }
  auto show = [&] { Str s; for (MS3Selections *x = sel; x; x = x->next) { s += fmt ("%s %d", x->sidpattern, x->pubversion); for (MS3SelectTime *t = x->timewindows; t; t = t->next) s += fmt (" %lld-%lld", (long long)t->starttime, (long long)t->endtime); s += ";"; } return s; };
  switch (choose (5))
  {
  case 0: p = { "ms3_addselect", [&] { sel = NULL; ms3_addselect (&sel, s1.c_str (), 1, 2, 1); ms3_addselect (&sel, "X*", NSTUNSET, NSTUNSET, 0); }, [&] (Str &o) { return ms3_addselect (&sel, s2.c_str (), 5, 6, 1) == 0; }, show, [&] { ms3_freeselections (sel); sel = NULL; }, true, true }; break;
  case 1: p = { "ms3_addselect_comp", [&] { sel = NULL; ms3_addselect (&sel, s1.c_str (), 1, 2, 1); }, [&] (Str &o) { return ms3_addselect_comp (&sel, (char *)"IU", (char *)"ANMO", (char *)"--", (char *)"BHZ", 3, 4, 0) == 0; }, show, [&] { ms3_freeselections (sel); sel = NULL; }, true, true }; break;
  case 2: make_source (SRC_FILE, text, "sel.txt"); p = { "ms3_readselectionsfile", [&] { sel = NULL; if (choose (1)) return; }, [&] (Str &o) { int c = ms3_readselectionsfile (&sel, "sel.txt"); if (c < 0) { NEED (open_streams () == 0, "alloc:leak", "the file stays open"); ms3_freeselections (sel); sel = NULL; return false; } o = fmt ("%d", c); return true; }, show, [&] { ms3_freeselections (sel); sel = NULL; }, true, true }; break;
  case 3:
    {
      Str t = "#$ 3676924800\n#@ 3896899200\n2272060800 10 # 1 Jan 1972\n2287785600 11 # 1 Jul 1972\n3692217600 37 # 1 Jan 2017\n"; make_source (SRC_FILE, t, "leap"); size_t b0 = live_blocks (); (void)b0;
      auto lst = [] { Str s; for (LeapSecond *x = leapsecondlist; x; x = x->next) s += fmt ("%lld:%d ", (long long)x->leapsecond, x->TAIdelta); return s; };
      p = { "ms_readleapsecondfile", [&] {}, [&] (Str &o) { int c = ms_readleapsecondfile ("leap"); if (c < 0) return false; o = fmt ("%d", c); return true; }, lst, [&] {}, false, true };
      Str def = lst (); uint64_t calls = 3; nontrivial (); uint64_t k = choose (calls); alloc_reset (); alloc_fail_at (k, choose (2) ? 1 : FOREVER); int c = ms_readleapsecondfile ("leap"); bool failed = alloc_failed () > 0; alloc_fail_off ();
      log ("ms_readleapsecondfile: allocation %llu fails: %d", (unsigned long long)k, c); if (failed) NEED (c < 0, "alloc:silent", "a leap second file read without memory gives %d", c); if (c < 0) { NEED (lst () == def, "alloc:changed", "a failed read of leap seconds changes the table"); NEED (live_blocks () == b0, "alloc:leak", "memory is left: %s", live_desc ().c_str ()); }
      c = ms_readleapsecondfile ("leap"); NEED (c == 3, "alloc:retry", "reading again gives %d", c); return;
    }
  default:
    if (choose (2)) { static MS3FileParam *fp; file ("fd").data = "x"; p = { "ms3_mstl_init_fd", [&] { fp = NULL; }, [&] (Str &o) { fp = ms3_mstl_init_fd (make_fd ("fd")); return fp != NULL; }, [&] { return Str (); }, [&] { if (fp) { MS3Record *m = NULL; ms3_readmsr_r (&fp, &m, NULL, 0, 0); } }, true, true }; break; }
    static MSLogParam *lp; static std::vector<Str> got; got.clear (); nontrivial (); lp = NULL; alloc_reset (); int at = choose (8); alloc_fail_at (at, 1 + choose (3)); int failures = 0, sent = 0; std::vector<int> kept;
    lp = ms_rloginit_l (NULL, NULL, NULL, [] (const char *s) { got.push_back (s); }, "", 100); if (!lp) { NEED (alloc_failed (), "alloc:reference", "no log parameters"); alloc_fail_off (); return; }
    for (int i = 0; i < 8; i++) { int rc = ms_rlog_l (lp, NULL, 2, "message %d\n", i); if (rc < 0) failures++; else kept.push_back (i); sent++; }
    alloc_fail_off (); int e = ms_rlog_emit (lp, 0, 0); std::sort (got.begin (), got.end ()); for (auto &x : got) while (x.size () && x.back () == '\n') x.pop_back (); NEED (got.size () == kept.size () && e <= (int)kept.size (), "alloc:silent", "%zu messages were accepted, %d emitted, %zu delivered (%d refused)", kept.size (), e, got.size (), failures);
    for (size_t i = 0; i < kept.size (); i++) NEED (got[i] == fmt ("message %d", kept[i]), "alloc:silent", "message %zu is '%s' instead of %d", i, got[i].c_str (), kept[i]);
    user_free (lp); return;
  }
  check (p);
}
// the program
SCENARIO (C11, msi)
{
  sim_setup ();
  int n = 1 + choose (2); std::vector<Str> args; size_t mx = 64;
  static const char *L[] = { "-p", "-pp", "-d", "-D", "-tg", "-T", "-s", "-g", "-S", "-G", "-O", "-z", "-t" }; args.push_back (L[choose (13)]); if (choose (2)) args.push_back (L[choose (13)]);
  if (choose (2)) { args.push_back ("-o"); args.push_back ("copy"); } if (choose (3) == 2) { args.push_back ("-b"); args.push_back ("bin"); } if (choose (4) == 3) { args.push_back ("-m"); args.push_back ("BH"); } if (choose (4) == 3) { args.push_back ("-r"); args.push_back ("XX"); }
  std::vector<Stream> st; for (int i = 0; i < n; i++) { size_t m; st.push_back (mixed_stream (4, false, false, &m)); mx = std::max (mx, m); } tune_buffer (mx); Str lf;
  for (int i = 0; i < n; i++) { Source s = make_source (choose (4) == 3 ? SRC_URL : SRC_FILE, st[i].bytes, fmt ("in%d", i)); Str a = s.kind == SRC_URL ? s.path : s.name; if (choose (3) == 2) lf += a + "\n"; else args.push_back (a); }
  if (lf.size ()) { file ("list").data = lf; args.push_back ("@list"); }
  auto go = [&] { MsiResult r = run_msi (args); return fmt ("%d\n", r.status) + r.out + "\x01" + (has_file ("copy") ? file ("copy").data : "") + "\x01" + (has_file ("bin") ? file ("bin").data : "") + "\x01"; };
  uint64_t calls = 0; Str ref = isolated ([&] { alloc_reset (); Str s = go (); return s + "\x02" + fmt ("%llu", (unsigned long long)alloc_calls ()); }); size_t z = ref.rfind ('\x02'); calls = strtoull (ref.c_str () + z + 1, NULL, 10); ref.resize (z); if (ref[0] != '0' || !calls) return;
  nontrivial ();
  for (int i = 0; i < 2; i++)
  {
    uint64_t k = choose (calls); int64_t cnt = choose (2) ? FOREVER : 1;
    Str got = isolated ([&] { alloc_reset (); alloc_fail_at (k, cnt); return go (); });
    Str cl; for (auto &a : args) cl += " " + a; log ("msi%s: allocation %llu of %llu fails: status %d", cl.c_str (), (unsigned long long)k, (unsigned long long)calls, atoi (got.c_str ()));
    if (got[0] == '0') NEED (got == ref, "alloc:msi", "msi%s: allocation %llu of %llu fails and the program ends with status 0 but other output", cl.c_str (), (unsigned long long)k, (unsigned long long)calls);
  }
}
