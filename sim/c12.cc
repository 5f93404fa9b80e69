// C12: after the documented clean-up nothing is left, wherever processing stopped
#include "scn.h"
using namespace sim;

struct Base { size_t blocks; int streams, fds, handles, slist; Base () : blocks (live_blocks ()), streams (open_streams ()), fds (open_fds ()), handles (open_handles ()), slist (slists ()) {} };
static void nothing_left (const Base &b, const char *what)
{
  NEED (live_blocks () == b.blocks, "leak:memory", "%s: %zd blocks of memory are left:%s", what, (ssize_t)(live_blocks () - b.blocks), live_desc ().c_str ());
  NEED (open_streams () == b.streams && open_fds () == b.fds, "leak:file", "%s: %d streams, %d descriptors are left open", what, open_streams () - b.streams, open_fds () - b.fds);
  NEED (open_handles () == b.handles && slists () == b.slist, "leak:handle", "%s: %d network handles, %d header lists are left", what, open_handles () - b.handles, slists () - b.slist);
}
// bytes with possible damage, behind a source with possible faults
static Str damaged (Str b)
{
  int n = choose (3);
  for (int i = 0; i < n && b.size (); i++) switch (choose (4))
  {
  case 0: b[choose (b.size ())] ^= 1 << choose (8); break;
  case 1: b.resize (b.size () - choose (std::min<size_t> (b.size (), 400))); break;
  case 2: { Str j; Rng r = bulk (); size_t k = choose (200); for (size_t x = 0; x < k; x++) j += (char)r.next (); b.insert (choose (b.size () + 1), j); break; }
  default: b.erase (choose (b.size ()), choose (60)); break;
  }
  return b;
}
static Source spoiled (const Str &bytes, const Str &name)
{
  SrcKind k = (SrcKind)choose (SRC_NKINDS); Source s = make_source (k, bytes, name);
  if (choose (2)) return s;
  if (k == SRC_URL)
  {
    Server &v = server (s.path);
    switch (choose (6)) { case 0: v.reset_at = choose (bytes.size () + 1); break; case 1: v.refuse = true; break; case 2: v.status = choose (2) ? 404 : 503; break; case 3: v.ranges = false; break; case 4: v.redirects = 3; break; default: v.eintr = 2 + choose (3); }
    fault ("net-fault");
  }
  else
  {
    File &f = file (s.name);
    if (choose (4) == 3 && k == SRC_FILE) { f.open_errno = choose (2) ? EACCES : EMFILE; fault ("open-fail"); }
    else { f.rp.fail_at = choose (bytes.size () + 1); f.rp.err = EIO; f.rp.transient = choose (2); f.rp.cut = choose (3) == 2; log ("fails at %lld of %zu%s%s", (long long)f.rp.fail_at, bytes.size (), f.rp.transient ? " once" : "", f.rp.cut ? " (cut)" : ""); }
  }
  return s;
}
static void rec_out (char *rec, int len, void *h) { hash (rec, len); (*(int *)h)++; }
static void fail_off () { alloc_fail_off (); net_fail_off (); }
static void maybe_alloc_fail () { if (choose (4) == 3) net_fail_at (choose (2) ? choose (10) : logsize (100), choose (2) ? 1 : 1000000); if (choose (3) == 2) { alloc_reset (); alloc_fail_at (logsize (60), choose (2) ? 1 : 1000000); } }

SCENARIO (C12, reader)
{
  sim_setup (); nontrivial ();
  int rounds = 1 + choose (3); Base base;
  for (int q = 0; q < rounds; q++)
  {
    size_t mx; Stream s = mixed_stream (6, choose (4) == 3, true, &mx); tune_buffer (mx); Str b = damaged (s.bytes); Source src = spoiled (b, fmt ("in%d", q));
    uint32_t fl = (choose (2) ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_SKIPNOTDATA : 0) | (choose (2) ? MSF_VALIDATECRC : 0); MS3Selections *sel = NULL; if (choose (3) == 2) { ms3_addselect (&sel, pick (s.recs).sid.c_str (), NSTUNSET, NSTUNSET, 0); ms3_addselect (&sel, "*", s.recs[0].start, NSTUNSET, 1); }
    maybe_alloc_fail ();
    int api = choose (4);
    if (api == 3 && (src.kind == SRC_FILE || src.kind == SRC_URL || src.kind == SRC_STDIN))
    {
      MS3TraceList *l = NULL; Str p = src.path; uint32_t f2 = fl | (choose (2) ? MSF_RECORDLIST : 0); int how = choose (3); if (src.kind == SRC_FILE && choose (3) == 2) { f2 |= MSF_PNAMERANGE; p += fmt ("@%u-%u", choose (b.size () + 1), choose (b.size () + 1)); }
      int rc = how == 0 ? ms3_readtracelist (&l, p.c_str (), NULL, choose (2), f2, 0) : how == 1 ? ms3_readtracelist_timewin (&l, p.c_str (), NULL, s.recs[0].start, NSTUNSET, choose (2), f2, 0) : ms3_readtracelist_selection (&l, p.c_str (), NULL, sel, choose (2), f2, 0);
      log ("trace list from %s: %s", kindname (src.kind), codename (rc));
      if (choose (2) && l) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) if (g->recordlist) mstl3_unpack_recordlist (id, g, NULL, 0, 0);
      if (l) mstl3_free (&l, 0); NEED (!l, "leak:pointer", "mstl3_free leaves the pointer");
    }
    else
    {
      MS3FileParam *fp = src.msfp; MS3Record *m = NULL; int limit = choose (2) ? 1000 : choose (8), rc = 0, n = 0; bool global = api == 2 && src.kind != SRC_FD; int give = 0;
      for (; n < limit; n++)
      {
        rc = global ? ms3_readmsr (&m, src.path.c_str (), fl, 0) : sel ? ms3_readmsr_selection (&fp, &m, src.path.c_str (), fl, sel, 0) : ms3_readmsr_r (&fp, &m, src.path.c_str (), fl, 0);
        if (rc == MS_ENDOFFILE) { if (choose (3) != 2) break; continue; }
        if (rc != MS_NOERROR && ++give > (int)choose (4)) break;
      }
      log ("%s: stopped after %d calls with %s", kindname (src.kind), n, codename (rc));
      fail_off ();
      // the record may be kept beyond the reader or released by it
      MS3Record *keep = NULL; if (m && choose (3) == 2) { keep = msr3_duplicate (m, 1); }
      bool later = choose (2); MS3Record *none = NULL;
      if (global) ms3_readmsr (later ? &none : &m, NULL, 0, 0); else { ms3_readmsr_selection (&fp, later ? &none : &m, NULL, 0, NULL, 0); NEED (!fp, "leak:pointer", "the reader is not released"); }
      if (later && m) { m->record = NULL; msr3_free (&m); } NEED (!m && !none, "leak:pointer", "the record is not released"); if (keep) msr3_free (&keep);
      if (choose (3) == 2) { if (global) ms3_readmsr (&m, NULL, 0, 0); else ms3_readmsr_r (&fp, &m, NULL, 0, 0); } // once more does no harm
      src.msfp = NULL;
    }
    fail_off (); if (src.msfp) { MS3Record *m = NULL; ms3_readmsr_r (&src.msfp, &m, NULL, 0, 0); } if (sel) ms3_freeselections (sel);
    nothing_left (base, "after reading");
  }
}
SCENARIO (C12, record)
{
  sim_setup (); nontrivial (); Base base;
  MS3Record *m = NULL, *d = NULL; std::vector<MS3Record *> dup; LM_PARSED_JSON *ps = NULL; int n = 1 + choose (10), got = 0; Str last;
  for (int i = 0; i < n; i++)
  {
    maybe_alloc_fail ();
    switch (choose (10))
    {
    case 0: case 1: case 2: { if (m) mseh_free_parsestate (&ps); GenOpt o; o.max_len = 6000; RefRec r = gen_record (o); if (m) m->record = NULL; last = damaged (r.raw); if (last.empty ()) break; int rc = msr3_parse (last.data (), last.size (), &m, choose (3) ? MSF_UNPACKDATA : 0, 0); log ("parse: %d", rc); if (rc) { if (m) m->record = NULL; } break; }
    case 3: if (m && m->record) log ("unpack: %lld", (long long)msr3_unpack_data (m, 0)); break;
    case 4: if (m) { d = msr3_duplicate (m, choose (2)); if (d) dup.push_back (d); } break;
    case 5: if (m && m->numsamples > 0) { int64_t p = 0; MS3Record c = *m; c.reclen = choose (2) ? 512 : choose (300); c.encoding = choose (2) ? -1 : (int)choose (14); int rc = msr3_pack (&c, rec_out, &got, &p, choose (2) ? MSF_FLUSHDATA : MSF_FLUSHDATA | MSF_PACKVER2, 0); log ("pack: %d", rc); } break;
    case 6: if (m && m->record) { Str b (choose (2) ? m->reclen + 200 : choose (200), 0); log ("repack: %d", msr3_repack_mseed3 (m, &b[0], b.size (), 0)); } break;
    case 7: if (m) { double v = i; int rc = mseh_set_ptr_r (m, choose (3) ? "/FDSN/X" : choose (2) ? "/a/b/c" : "bad", &v, 'n', choose (2) ? &ps : NULL); log ("set: %d", rc); if (choose (2)) mseh_serialize (m, &ps); } break;
    case 8: if (m) { double v; if (choose (2)) mseh_get_ptr_r (m, "/FDSN/Time/Quality", &v, 'n', 0, choose (2) ? &ps : NULL); else mseh_print (m, 0); msr3_print (m, choose (3)); if (choose (2)) { if (mseh_replace (m, (char *)(choose (2) ? "{\"q\":1}" : "{broken")) >= 0) mseh_free_parsestate (&ps); } } break;
    default: if (m) log ("resize: %d", msr3_resize_buffer (m)); if (choose (4) == 3) { MS3Record *x = msr3_init (NULL); if (x) { MS3Record *y = msr3_init (x); if (y) msr3_free (&y); else msr3_free (&x); } } break;
    }
    fail_off ();
  }
  mseh_free_parsestate (&ps); mseh_free_parsestate (&ps); msr3_free (&m); msr3_free (&m); for (auto &x : dup) msr3_free (&x);
  nothing_left (base, "after handling records");
}
// records that cannot be written, refused at different points of their construction
SCENARIO (C12, refused)
{
  sim_setup (); nontrivial (); Base base; int n = 1 + choose (6), got = 0;
  static const char *T[] = { "yesterday", "", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020,367,00:00:00", "2020-01-01T25:00:00Z", "12", "-1", "2021-05-06T07:08:09Z" };
  static const char *P[] = { "{\"FDSN\":{\"Time\":{\"Exception\":[%s{\"Time\":\"%s\"}]}}}", "{\"FDSN\":{\"Event\":{\"Detection\":[%s{\"Type\":\"GENERIC\",\"OnsetTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Event\":{\"Detection\":[%s{\"Type\":\"MURDOCK\",\"OnsetTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[%s{\"Type\":\"STEP\",\"BeginTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[%s{\"Type\":\"SINE\",\"BeginTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[%s{\"Type\":\"PSEUDORANDOM\",\"BeginTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[%s{\"Type\":\"GENERIC\",\"BeginTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[%s{\"Type\":\"STEP\",\"BeginTime\":\"2020-01-01T00:00:00Z\",\"EndTime\":\"%s\"}]}}}" };
  static const char *G[] = { "{\"Time\":\"2020-01-01T00:00:00Z\"},", "{\"Type\":\"GENERIC\",\"OnsetTime\":\"2020-01-01T00:00:00Z\"},", "{\"Type\":\"MURDOCK\",\"OnsetTime\":\"2020-01-01T00:00:00Z\"},", "{\"Type\":\"STEP\",\"BeginTime\":\"2020-01-01T00:00:00Z\"},", "{\"Type\":\"SINE\",\"BeginTime\":\"2020-01-01T00:00:00Z\"},", "{\"Type\":\"PSEUDORANDOM\",\"BeginTime\":\"2020-01-01T00:00:00Z\"},", "{\"Type\":\"GENERIC\",\"BeginTime\":\"2020-01-01T00:00:00Z\"},", "{\"Type\":\"STEP\",\"BeginTime\":\"2020-01-01T00:00:00Z\"}," };
  for (int i = 0; i < n; i++)
  {
    GenOpt o; o.legacy = false; o.nob1000 = false; RefRec r = gen_record (o); MS3Record *m = NULL; NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused");
    auto extra = [&] (const Str &j) { if (m->extra) user_free (m->extra); m->extra = (char *)user_alloc (j.size () + 1); strcpy (m->extra, j.c_str ()); m->extralength = j.size (); };
    bool v2 = choose (4) != 3; m->formatversion = v2 ? 2 : 3; m->reclen = v2 ? 128 << choose (7) : 128 + choose (8000); if (r.s.type == 'i' && choose (2)) { static const int E[] = { 11, 10, 3, 1 }; m->encoding = E[choose (4)]; }
    switch (choose (8))
    {
    case 0: case 1: case 2: { int w = choose (8); Str pre; for (int k = choose (5); k > 0; k--) pre += G[w]; extra (fmt (P[w], pre.c_str (), T[choose (9)])); break; }
    case 3: { static const char *X[] = { "{\"FDSN\":", "nonsense", "{\"a\":1}}", "{\"FDSN\":[1]}", "[]", "1" }; extra (X[choose (6)]); break; }
    case 4: { static const char *S[] = { "", "X", "FDSN:", "FDSN:TOOLONG_STA__B_H_Z", "FDSN:XX_STATIONX_00_B_H_Z", "FDSN:XX_STA__BB_HH_ZZ", "FDSN:XX" }; strcpy (m->sid, S[choose (7)]); break; }
    case 5: m->encoding = choose (35); break;
    case 6: m->samprate = choose (2) ? 40000.5 : -33000.25; if (choose (2)) m->starttime = cal2ns (choose (2) ? 1850 : 2200, 1, 0, 0, 0, 0); break;
    default: break;
    }
    maybe_alloc_fail (); int64_t ps = 0; int rc; uint32_t fl = choose (2) ? MSF_FLUSHDATA : 0;
    switch (choose (5))
    {
    case 0: { Str b (128 + choose (4000), 0); rc = v2 ? msr3_pack_header2 (m, &b[0], b.size (), 0) : msr3_pack_header3 (m, &b[0], b.size (), 0); break; }
    case 1: { MS3TraceList *l = mstl3_init (NULL); rc = -1; if (l) { mstl3_addmsr (l, m, 0, 1, 0, NULL); rc = mstl3_pack (l, rec_out, &got, m->reclen, m->encoding, &ps, fl | (v2 ? MSF_PACKVER2 : 0), 0, choose (2) ? m->extra : NULL); mstl3_free (&l, 0); } break; }
    case 2: rc = msr3_writemseed (m, "/sim/w.ms", choose (2), fl | (v2 ? MSF_PACKVER2 : 0), 0); break;
    default: rc = msr3_pack (m, rec_out, &got, choose (2) ? &ps : NULL, fl | (v2 ? MSF_PACKVER2 : 0), 0);
    }
    log ("version %d, %d bytes, %d of extra headers: %d", v2 ? 2 : 3, m->reclen, m->extralength, rc); if (rc < 0) probe ("pack-refused"); fail_off (); msr3_free (&m);
    nothing_left (base, "after packing");
  }
}
static int user_blocks;
SCENARIO (C12, tracelist)
{
  sim_setup (); nontrivial (); Base base; int n = 1 + choose (8), got = 0; std::vector<RefRec> rs; GenOpt o; o.max_len = 4000; o.max_samples = 120; o.sidpool = 3;
  for (int i = 0; i < n; i++) { if (rs.size () && choose (2)) { const RefRec &t = pick (rs); if (t.nsamp () > 0) { RefRec r = make_piece (t, t.end () + t.period (), t.s); if (r.raw.size ()) { rs.push_back (r); continue; } } } rs.push_back (gen_record (o)); }
  // or pieces of one channel, which grow together in whatever order they come
  std::vector<size_t> order; if (choose (3) == 2) { RefRec t = gen_record (o); if (t.nsamp () > 0 && t.rate > 0) { rs.clear (); rs.push_back (t); int k = 2 + choose (4); for (int i = 0; i < k; i++) { RefRec r = make_piece (t, rs.back ().end () + t.period (), t.s); if (r.raw.empty ()) break; rs.push_back (r); } order = permutation (rs.size ()); } } bool chain = order.size ();
  MS3TraceList *l = NULL; bool rl = choose (2), priv = choose (2), split = choose (2), segpriv = choose (2); MS3Record *m = NULL; std::vector<Str> bufs; Str all; for (auto &r : rs) all += r.raw; all = damaged (all); size_t mx = 4096; for (auto &r : rs) mx = std::max (mx, r.raw.size ()); tune_buffer (mx); file ("in").data = all; int steps = 1 + choose (10); std::vector<void *> mine; MS3FileParam *rfp = NULL;
  for (int i = 0; i < steps; i++)
  {
    maybe_alloc_fail ();
    switch (choose (9))
    {
    case 0: case 1: case 2:
      {
        if (!l) l = mstl3_init (NULL); if (!l) break; size_t w = choose (rs.size ()); if (order.size () && choose (8)) { w = order.back (); order.pop_back (); } const RefRec &r = rs[w];
        if (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0)) { if (m) m->record = NULL; break; }
        MS3RecordPtr *rp = NULL; MS3TraceSeg *g = rl ? mstl3_addmsr_recordptr (l, m, &rp, split, chain || choose (2), 0, NULL) : mstl3_addmsr (l, m, split, chain || choose (2), 0, NULL); if (chain) i -= choose (2);
        if (g && rp) { rp->bufferptr = r.raw.data (); rp->dataoffset = r.dataoff; if (priv) { rp->prvtptr = user_alloc (16); } }
        if (g && segpriv && !g->prvtptr) g->prvtptr = user_alloc (24);
        if (g && segpriv) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) if (!id->prvtptr && choose (2)) id->prvtptr = user_alloc (8);
        break;
      }
    case 3: { if (segpriv || priv) break; log ("readbuffer: %lld", (long long)mstl3_readbuffer (&l, all.data (), all.size (), split, (choose (2) ? MSF_UNPACKDATA : 0) | (rl ? MSF_RECORDLIST : 0), NULL, 0)); break; }
    case 4: { if (segpriv || priv || !all.size ()) break; log ("readtracelist: %d", ms3_readtracelist (&l, "in", NULL, split, (choose (2) ? MSF_UNPACKDATA : 0) | (rl ? MSF_RECORDLIST : 0) | (choose (2) ? MSF_SKIPNOTDATA : 0), 0)); break; }
    case 5: if (l) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) if (g->recordlist) log ("unpack: %lld", (long long)mstl3_unpack_recordlist (id, g, NULL, 0, 0)); break;
    case 6: if (l) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) if (choose (2)) mstl3_convertsamples (g, "ifd"[choose (3)], choose (2)); break;
    case 7: if (l) { if (choose (2)) log ("resize: %d", mstl3_resize_buffers (l)); else if (choose (2)) { char *ex = (char *)"{\"a\":1}"; int64_t ps; log ("pack: %lld", (long long)mstl3_pack (l, rec_out, &got, choose (2) ? 512 : 4096, -1, &ps, (choose (2) ? MSF_FLUSHDATA : 0) | (choose (2) ? MSF_MAINTAINMSTL : 0), 0, choose (2) ? ex : NULL)); } } break;
    default: if (l && choose (2)) { log ("write: %lld", (long long)mstl3_writemseed (l, "out", choose (2), 512, -1, MSF_FLUSHDATA | (choose (2) ? MSF_MAINTAINMSTL : 0), 0)); } else if (m && m->numsamples && m->datasamples) { m->reclen = 512; m->encoding = -1; log ("write: %lld", (long long)msr3_writemseed (m, "out", choose (2), MSF_FLUSHDATA, 0)); } break;
    }
    fail_off (); if (l && rl && !segpriv && !priv && choose (8) == 7) { mstl3_free (&l, 0); }
  }
  // private data: released with the list on request, or left to the caller
  bool freeprv = choose (2);
  if (!freeprv && l) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) { if (id->prvtptr) mine.push_back (id->prvtptr); for (MS3TraceSeg *g = id->first; g; g = g->next) { if (g->prvtptr) mine.push_back (g->prvtptr); if (g->recordlist) for (MS3RecordPtr *q = g->recordlist->first; q; q = q->next) if (q->prvtptr) mine.push_back (q->prvtptr); } }
  // (mstl3_init on an existing list empties it)
  bool via_init = l && choose (4) == 3 && !segpriv && !priv; if (via_init) { MS3TraceList *x = mstl3_init (l); NEED (!x || (x->numtraceids == 0 && !x->traces.next[0]), "leak:init", "mstl3_init keeps entries of the list"); l = x; }
  if (l) mstl3_free (&l, freeprv); NEED (!l, "leak:pointer", "mstl3_free leaves the pointer"); mstl3_free (&l, freeprv); if (m) { m->record = NULL; msr3_free (&m); } for (void *p : mine) user_free (p); (void)rfp; (void)user_blocks;
  nothing_left (base, "after handling a trace list");
}
SCENARIO (C12, control)
{
  sim_setup (); nontrivial (); ms3_url_userpassword ("u:p"); // (keeps one template handle for the life of the process)
  Base base; int n = 1 + choose (6); MS3Selections *sel = NULL; MSLogParam *lp = NULL; bool headers = false; LeapSecond *leap0 = leapsecondlist; bool leapread = false;
  for (int i = 0; i < n; i++)
  {
    maybe_alloc_fail ();
    switch (choose (7))
    {
    case 0: ms3_addselect (&sel, choose (4) == 3 ? Str (choose (200), 'x').c_str () : sid_for (choose (8)).c_str (), choose (2) ? NSTUNSET : 5, NSTUNSET, choose (3)); break;
    case 1: ms3_addselect_comp (&sel, (char *)(choose (3) == 2 ? "TOOLONGNETWORKCODEXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX" : "IU"), (char *)"ANMO", (char *)(choose (2) ? "--" : "00"), (char *)(choose (2) ? "BHZ" : "B_H_Z"), NSTUNSET, NSTUNSET, 0); break;
    case 2: { Str t; int k = choose (6); for (int j = 0; j < k; j++) { static const char *L[] = { "FDSN:XX_*  2020-01-01 2021-01-01 1\n", "IU ANMO 00 BHZ\n", "# comment\n", "\n", "a b c d e f g h i j\n", "XX_S 1 not-a-time 3\n", "FDSN:A_B_C_D_E_F 2020-01-01T00:00:00 2021,1 R\n" }; t += L[choose (7)]; } Str nm = fmt ("sel%d", i); file (nm).data = t; if (choose (3) == 2 && t.size ()) { file (nm).rp.fail_at = choose (t.size ()); file (nm).rp.err = EIO; } int c = choose (5) == 4 ? ms3_readselectionsfile (&sel, "missing") : ms3_readselectionsfile (&sel, nm.c_str ()); log ("selections file: %d", c); break; }
    case 3: { Str t = "#@ 3896899200\n2272060800 10\n2287785600 11\n3692217600 37\n"; Str nm = fmt ("leap%d", i); file (nm).data = t; if (choose (2)) { file (nm).rp.fail_at = choose (t.size ()); file (nm).rp.err = EIO; } int c = ms_readleapsecondfile (choose (4) == 3 ? "missing" : nm.c_str ()); log ("leap seconds: %d", c); if (c > 0) leapread = true; break; }
    case 4: if (!lp) lp = ms_rloginit_l (NULL, NULL, NULL, [] (const char *) {}, NULL, choose (4)); if (lp) { int k = choose (6); for (int j = 0; j < k; j++) ms_rlog_l (lp, "f", 2, "message %d\n", j); if (choose (3) == 2) ms_rlog_emit (lp, choose (3), 0); if (choose (4) == 3) ms_rlog_free (lp); } break;
    case 5: headers = true; log ("header: %d", ms3_url_addheader (choose (4) == 3 ? "" : "X-Thing: 1")); ms3_url_useragent ("sim", choose (2) ? "1" : NULL); ms3_url_userpassword ("user:secret"); if (choose (3) == 2) ms3_url_freeheaders (); break;
    default: ms_rloginit (NULL, NULL, NULL, NULL, choose (4)); for (int j = choose (5); j > 0; j--) ms_rlog ("g", 2, "global %d\n", j); if (choose (2)) ms_rlog_emit (NULL, 0, 0); break;
    }
    fail_off ();
  }
  ms3_freeselections (sel); if (lp) { ms_rlog_free (lp); user_free (lp); } ms_rlog_free (NULL); if (headers) ms3_url_freeheaders ();
  if (choose (2) && headers) ms3_url_freeheaders ();
  if (leapread) { NEED (leapsecondlist != leap0, "leak:leap", "the table read is not in use"); while (leapsecondlist) { LeapSecond *x = leapsecondlist->next; user_free (leapsecondlist); leapsecondlist = x; } }
  nothing_left (base, "after handling control files");
}
SCENARIO (C12, msi)
{
  sim_setup (); nontrivial (); size_t mx; Stream s = mixed_stream (5, false, true, &mx); tune_buffer (mx); Str b = damaged (s.bytes); int n = 1 + choose (3); std::vector<Str> a; static const char *L[] = { "-p", "-d", "-tg", "-T", "-s", "-g", "-S", "-snd", "-O", "-D", "-n" };
  for (int i = choose (3); i >= 0; i--) { a.push_back (L[choose (11)]); if (a.back () == "-n") a.push_back (fmt ("%u", choose (5))); } if (choose (2)) { a.push_back ("-o"); a.push_back ("copy"); } if (choose (2)) { a.push_back ("-b"); a.push_back ("bin"); } if (choose (3) == 2) { a.push_back ("-m"); a.push_back ("BH"); }
  if (choose (3) == 2) { file ("sel").data = "* * * *\n"; a.push_back ("-s"); }
  for (int i = 0; i < n; i++) { Source q = spoiled (b, fmt ("in%d", i)); if (q.kind == SRC_FD) { MS3Record *m = NULL; ms3_readmsr_r (&q.msfp, &m, NULL, 0, 0); q = make_source (SRC_FILE, b, fmt ("in%d", i)); } a.push_back (q.kind == SRC_STDIN ? "-" : q.kind == SRC_URL ? q.path : q.name); }
  int st0 = open_streams (), h0 = open_handles (); MsiResult r = run_msi (a);
  // ending with exit() in the middle leaves it to the system
  if (!r.exited) NEED (open_streams () <= st0 && open_handles () == h0, "leak:msi", "msi ends (status %d) with %d streams, %d handles open", r.status, open_streams () - st0, open_handles () - h0);
}
