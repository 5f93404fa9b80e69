// Operations of the library as a caller strings them together: built with all their choices made, so that one can run twice
#pragma once
#include "scn.h"
using namespace sim;

static Str gotstr (const Got &g) { return fmt ("%s|v%d|f%x|s%lld|r%.17g|e%d|p%d|n%lld|num%lld|crc%x|dl%u|end%lld|off%lld|x%d|", g.sid.c_str (), g.fmt, g.flags, (long long)g.start, g.rate, g.enc, g.pubver, (long long)g.cnt, (long long)g.num, g.crc, g.datalen, (long long)g.end, (long long)g.off, g.hasextra) + g.extra + "|" + g.raw + "|" + (g.num ? Str (1, g.stype) + g.samples : Str ("-")); }
static void rec_out (char *r, int n, void *h) { *(Str *)h += fmt ("[%d]", n) + Str (r, n); }
// the containers a caller keeps using
struct Ctx { MS3Record *m = NULL; MS3TraceList *l = NULL; };
typedef std::function<Str (Ctx &)> Op; // makes no choices when it runs
static Str damage (Str b)
{
  for (int n = choose (3); n > 0 && b.size () > 1; n--) switch (choose (4))
  {
  case 0: b[choose (b.size ())] ^= 1 << choose (8); break;
  case 1: b.resize (b.size () - choose (std::min<size_t> (b.size () - 1, 300))); break;
  case 2: b.insert (choose (b.size () + 1), Str (1 + choose (100), 'j')); break;
  default: b.erase (choose (b.size () - 1), choose (50)); if (b.empty ()) b = "x";
  }
  return b;
}
static GenOpt gopt () { GenOpt o; o.sidpool = 8; o.max_samples = choose (4) == 3 ? 6000 : 300; return o; }
// the record in use as a caller may leave it
[[maybe_unused]] static void meddle (Ctx &c)
{
  if (!c.m) return;
  switch (choose (8))
  {
  case 0: msr3_unpack_data (c.m, 0); break;
  case 1: msr3_resize_buffer (c.m); break;
  case 2: { double v = 7; mseh_set_ptr_r (c.m, "/FDSN/Time/Quality", &v, 'n', NULL); break; }
  case 3: c.m = msr3_init (c.m); break;
  case 4: { MS3Record *d = msr3_duplicate (c.m, choose (2)); msr3_free (&c.m); c.m = d; break; }
  case 5: msr3_free (&c.m); break;
  case 6: { c.m->starttime = 5; c.m->samprate = -3; c.m->flags = 255; c.m->pubversion = 77; strcpy (c.m->sid, "stale"); c.m->encoding = 99; c.m->crc = 1; c.m->sampletype = 'z'; break; }
  default: break;
  }
}
static Op op_parse (bool bad)
{
  Str b = gen_record (gopt ()).raw; if (bad) b = damage (b); uint32_t fl = (choose (3) ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_VALIDATECRC : 0) | MSF_ATENDOFFILE; bool later = choose (4) == 3; const char *p = ro_copy (b); size_t n = b.size ();
  return [=] (Ctx &c) { int rc = msr3_parse (p, n, &c.m, fl, 0); Str o = fmt ("parse %d ", rc); if (rc == 0) { if (later) o += fmt ("unpack %lld ", (long long)msr3_unpack_data (c.m, 0)); o += gotstr (capture (c.m, 0)); } return o; };
}
static Op op_read (bool bad, int stop, int &serial)
{
  size_t mx; Stream s = mixed_stream (5, false, true, &mx); Str b = bad ? damage (s.bytes) : s.bytes; SrcKind k = (SrcKind)choose (3); if (k == SRC_FD) k = SRC_URL; Source src = make_source (k, b, fmt ("in%d", serial++));
  if (bad && choose (2)) { if (k == SRC_URL) { Server &v = server (src.path); if (choose (2)) v.reset_at = choose (b.size () + 1); else v.status = 404; } else { File &f = file (src.name); if (choose (2) && k == SRC_FILE) f.open_errno = ENOENT; else { f.rp.fail_at = choose (b.size () + 1); f.rp.err = EIO; } } fault ("read-fault"); }
  Str path = src.path; uint32_t fl = (choose (2) ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_SKIPNOTDATA : 0) | (choose (2) ? MSF_VALIDATECRC : 0); bool global = choose (2); bool stdi = k == SRC_STDIN; Str name = src.name;
  if (!stdi && choose (3) == 2) { fl |= MSF_PNAMERANGE; path += fmt ("@%u", choose (b.size () + 1)); if (choose (2)) path += fmt ("-%u", choose (b.size () + 1)); }
  return [=] (Ctx &c)
  {
    if (stdi) set_stdin (name);
    MS3FileParam *fp = NULL; Str o; int rc; int n = 0; MS3Record *m = NULL; std::swap (m, c.m);
    while (stop < 0 || n < stop) { rc = global ? ms3_readmsr (&m, path.c_str (), fl, 0) : ms3_readmsr_r (&fp, &m, path.c_str (), fl, 0); if (rc) { o += fmt ("code %d", rc); break; } if (n++ > 3000) violate ("history:runaway", "reading does not end"); o += gotstr (capture (m, global ? 0 : fp->streampos)); }
    if (global) ms3_readmsr (&m, NULL, fl, 0); else ms3_readmsr_r (&fp, &m, NULL, fl, 0);
    return o;
  };
}
static Op op_list (bool bad, int &serial)
{
  std::vector<RefRec> recs; Want want; std::map<Str, int> mv; Tol tol; bool split = choose (2); build_case (recs, want, mv, tol, split, 1 + choose (3), 6); Str b; for (size_t i : permutation (recs.size ())) b += recs[i].raw; if (bad) b = damage (b);
  int way = choose (3); bool rl = choose (3) == 2, unp = !rl || choose (2); uint32_t fl = (rl ? MSF_RECORDLIST : 0) | (unp ? MSF_UNPACKDATA : 0) | MSF_ATENDOFFILE; Str name = fmt ("list%d", serial++); if (way == 2) make_source (SRC_FILE, b, name); const char *p = ro_copy (b); size_t n = b.size ();
  bool v2 = choose (2), pack = choose (2), half = bad && choose (2); int len = choose (2) ? 512 : 4096; int enc = choose (2) ? -1 : 11; int fresh = choose (3);
  return [=] (Ctx &c) mutable
  {
    const MS3Tolerance *t = tol.get (); Str o;
    if (fresh == 0 && c.l) mstl3_free (&c.l, 0); if (fresh == 1 || !c.l || c.l->numtraceids) c.l = mstl3_init (c.l); if (!c.l) return Str ("no list");
    if (way == 0)
    {
      size_t at = 0; while (at < n) { int rc = msr3_parse (p + at, n - at, &c.m, fl & ~MSF_RECORDLIST, 0); if (rc) { o += fmt ("parse %d ", rc); break; } MS3RecordPtr *rp = NULL; MS3TraceSeg *g = mstl3_addmsr_recordptr (c.l, c.m, rl ? &rp : NULL, split, 1, 0, t); o += g ? "+" : "-"; if (rp && rp->msr == c.m) violate ("history:record", "the record list keeps the caller's record"); at += c.m->reclen; }
    }
    else if (way == 1) o += fmt ("buffer %lld ", (long long)mstl3_readbuffer (&c.l, p, n, split, fl, t, 0));
    else o += fmt ("file %d ", ms3_readtracelist (&c.l, name.c_str (), t, split, fl & ~MSF_ATENDOFFILE, 0));
    o += fullinfo (c.l); LogCapture::reset (); mstl3_printtracelist (c.l, ISOMONTHDAY, 1, 1, 1); mstl3_printgaplist (c.l, UNIXEPOCH, NULL, NULL); o += LogCapture::out; LogCapture::reset ();
    if (rl && !half) for (MS3TraceID *id = c.l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) if (g->recordlist && !g->datasamples && way) o += fmt ("unpack %lld ", (long long)mstl3_unpack_recordlist (id, g, NULL, 0, 0));
    if (pack) { int64_t ps = 0; Str r; int64_t q = mstl3_pack (c.l, rec_out, &r, len, enc, &ps, (half ? 0 : MSF_FLUSHDATA) | (v2 ? MSF_PACKVER2 : 0), 0, NULL); o += fmt ("pack %lld %lld ", (long long)q, (long long)ps) + r; }
    return o + fullinfo (c.l);
  };
}
static Op op_pack (bool bad)
{
  GenOpt g = gopt (); g.zero = false; RefRec r = gen_record (g); Str raw = r.raw; int len = 128 << choose (6); bool v2 = choose (2), flush = !bad || choose (2); int enc = choose (3) ? -1 : 3 + choose (10); const char *p = ro_copy (raw); size_t n = raw.size ();
  return [=] (Ctx &c) { Str o; int rc = msr3_parse (p, n, &c.m, MSF_UNPACKDATA | MSF_ATENDOFFILE, 0); if (rc) return fmt ("parse %d", rc); if (enc >= 0) c.m->encoding = enc; int64_t ps = 0; Str out; int was = c.m->reclen; c.m->reclen = len; int q = msr3_pack (c.m, rec_out, &out, &ps, (flush ? MSF_FLUSHDATA : 0) | (v2 ? MSF_PACKVER2 : 0), 0); c.m->reclen = was; return fmt ("pack %d %lld ", q, (long long)ps) + out + gotstr (capture (c.m, 0)); };
}
static Op op_repack ()
{
  GenOpt g = gopt (); RefRec r = gen_record (g); const char *p = ro_copy (r.raw); size_t n = r.raw.size ();
  return [=] (Ctx &c) { int rc = msr3_parse (p, n, &c.m, MSF_ATENDOFFILE, 0); if (rc) return fmt ("parse %d", rc); c.m->pubversion = 9; char *b = (char *)user_alloc (n + 400); int q = msr3_repack_mseed3 (c.m, b, n + 400, 0); Str o = fmt ("repack %d ", q) + (q > 0 ? Str (b, q) : Str ()); user_free (b); LogCapture::reset (); msr3_print (c.m, 3); o += LogCapture::out; return o; };
}
static Op op_json (bool bad)
{
  GenOpt g = gopt (); RefRec r = gen_record (g); const char *p = ro_copy (r.raw); size_t n = r.raw.size (); int q = choose (100); bool ser = !bad || choose (2);
  return [=] (Ctx &c)
  {
    Str o; int rc = msr3_parse (p, n, &c.m, MSF_ATENDOFFILE, 0); if (rc) return fmt ("parse %d", rc); LM_PARSED_JSON *ps = NULL; double d = q, e = -1; char s[40] = "";
    o += fmt ("%d ", mseh_get_ptr_r (c.m, "/FDSN/Time/Quality", &e, 'n', 0, &ps)) + fmt ("%g ", e); o += fmt ("%d ", mseh_set_ptr_r (c.m, "/FDSN/Time/Quality", &d, 'n', &ps)); o += fmt ("%d ", mseh_set_ptr_r (c.m, "/A/B", (void *)"text", 's', &ps));
    MSEHEventDetection det; memset (&det, 0, sizeof det); strcpy (det.type, "MURDOCK"); strcpy (det.detector, "det"); det.signalamplitude = q; det.signalperiod = 2; det.onsettime = 1600000000000000000LL; o += fmt ("%d ", mseh_add_event_detection_r (c.m, NULL, &det, &ps));
    if (ser) o += fmt ("%d ", mseh_serialize (c.m, &ps)); mseh_free_parsestate (&ps); o += fmt ("%d ", mseh_get_ptr_r (c.m, "/A/B", s, 's', sizeof s, NULL)) + s; return o + Str (c.m->extra ? c.m->extra : "", c.m->extralength);
  };
}
static Op op_decode ()
{
  GenOpt g = gopt (); g.v2 = false; g.zero = false; RefRec r = gen_record (g); Str pl = r.raw.substr (r.dataoff, r.datalen); const char *p = ro_copy (pl); size_t n = pl.size (); int e = r.enc; int64_t cnt = r.nsamp ();
  return [=] (Ctx &) { char *o = (char *)user_alloc (cnt * 8 + 1); char t = 0; int64_t c = ms_decode_data (p, n, e, cnt, o, cnt * 8, &t, 0, NULL, 0); Str s = fmt ("decode %lld %c ", (long long)c, t); if (c > 0) s += Str (o, c * ms_samplesize (t)); user_free (o); return s; };
}
static Op op_time ()
{
  int64_t t = range (-2000000000, 2000000000) * 1000000000LL + choose (1000000000); ms_timeformat_t f = (ms_timeformat_t)choose (11); ms_subseconds_t ss = (ms_subseconds_t)choose (7); Str txt = fmt ("20%02d-%02d-%02dT%02d:%02d:%02d.%d", 17 + choose (13), 1 + choose (12), 1 + choose (28), choose (24), choose (60), choose (60), choose (1000000));
  return [=] (Ctx &) { char b[64] = ""; ms_nstime2timestr (t, b, f, ss); char net[64], sta[64], loc[64], chan[64]; char sid[] = "FDSN:XX_ABC_00_L_H_Z"; int q = ms_sid2nslc (sid, net, sta, loc, chan); return Str (b) + fmt (" %lld %lld %d %s %s %s %s", (long long)ms_timestr2nstime (txt.c_str ()), (long long)ms_sampletime (t, 12345, 33.3), q, net, sta, loc, chan); };
}
static Op some_op (bool bad, int &serial, int stop)
{
  switch (choose (8)) { case 0: return op_parse (bad); case 1: return op_read (bad, stop, serial); case 2: return op_list (bad, serial); case 3: return op_pack (bad); case 4: return op_repack (); case 5: return op_json (bad); case 6: return op_decode (); default: return op_time (); }
}
[[maybe_unused]] static Str where (const Str &a, const Str &b) { size_t i = 0; while (i < a.size () && i < b.size () && a[i] == b[i]) i++; auto cut = [&] (const Str &s) { Str o; for (size_t k = i > 30 ? i - 30 : 0; k < s.size () && k < i + 40; k++) o += isprint ((uint8_t)s[k]) ? s[k] : '.'; return o; }; return fmt ("lengths %zu and %zu, at byte %zu: '%s' / '%s'", a.size (), b.size (), i, cut (a).c_str (), cut (b).c_str ()); }

