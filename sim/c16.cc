// C16: no byte sequence makes reading crash, overrun a buffer or run forever
#include "scn.h"
using namespace sim;

static Str noise (size_t n) { Str j (n, 0); Rng g = bulk (); for (auto &c : j) c = g.next () >> 33; return j; }
static void fixcrc (Str &r)
{
  if (r.size () < 40 || r[0] != 'M' || r[1] != 'S' || r[2] != 3) return;
  uint16_t ex; uint32_t dl; memcpy (&ex, &r[34], 2); memcpy (&dl, &r[36], 4); size_t len = 40 + (uint8_t)r[33] + ex + (size_t)dl;
  if (len > r.size ()) return; memset (&r[28], 0, 4); uint32_t c = crc32c_ref (r.data (), len); memcpy (&r[28], &c, 4);
}
static void put (Str &b, size_t at, uint64_t v, int n, bool be) { for (int i = 0; i < n; i++) if (at + i < b.size ()) b[at + i] = v >> 8 * (be ? n - 1 - i : i); }
static uint64_t extreme (int n)
{
  uint64_t full = n == 8 ? ~0ull : (1ull << 8 * n) - 1;
  switch (choose (10)) { case 0: return 0; case 1: return 1; case 2: return full; case 3: return full >> 1; case 4: return (full >> 1) + 1; case 5: return choose (70); case 6: return choose (600); case 7: return full - choose (70); case 8: return full >> choose (8 * n); default: return ((uint64_t)choose (~0u) << 32 | choose (~0u)) & full; }
}
static Str hostile_json ()
{
  static const char *J[] = { "{", "}", "[", "]", "\"", "\\", ":", ",", "null", "true", "1e999", "-", "0.1e-5", "\"\\u0000\"", "\"\\ud800\"", "\"\\uD834\\uDD1E\"", "{\"FDSN\":", "\"Event\":{\"Detection\":[", "{\"Type\":\"MURDOCK\"", "\"Time\":{\"Quality\":", "\"Sequence\":", "99999999999999999999", "\"a\"", "\xff", "\xc3\x28", "\t", "\n", " ", "\"Calibration\":{\"Sequence\":[{", "\"BeginTime\":\"2020-01-01T00:00:00Z\"", "\"Type\":\"STEP\"", "\"Statistics\":\"x\"", "%s%n%d", "}}}}" };
  Str j; int n = choose (40); for (int i = 0; i < n; i++) j += J[choose (34)];
  if (choose (6) == 5) { static const char O[] = "[{"; int d = logsize (20000); j.clear (); char c = O[choose (2)]; for (int i = 0; i < d; i++) { j += c; if (c == '{') j += "\"a\":"; } }
  if (choose (4) == 3) { // well formed, of unexpected types
    static const char *V[] = { "1", "-1", "1e300", "\"\"", "\"x\"", "{}", "[]", "null", "true", "[[[]]]", "{\"a\":{}}", "12345678901234567890", "\"%s%s%s\"" }; auto v = [&] { return Str (V[choose (13)]); };
    j = "{\"FDSN\":{"; static const char *K[] = { "\"Time\":{\"Quality\":", "\"Time\":{\"Correction\":", "\"Time\":{\"Exception\":[{\"Time\":", "\"Event\":{\"Detection\":[{\"Type\":", "\"Event\":{\"Detection\":[{\"MEDLookback\":", "\"Calibration\":{\"Sequence\":[{\"Type\":", "\"Flags\":{\"StationVolumeParityError\":", "\"Identifiers\":", "\"Sequence\":", "\"Logger\":{\"LTS\":", "\"DataQuality\":" };
    int k = 1 + choose (4); for (int i = 0; i < k; i++) { if (i) j += ","; int q = choose (11); Str key = K[q]; j += key + v (); if (key.find ("[{") != Str::npos) j += Str (choose (2) ? "" : ",\"Type\":\"STEP\"") + "}]}"; else if (key.find (":{") != Str::npos) j += "}"; } j += "}}";
  }
  if (j.size () > 65000) j.resize (65000);
  return j;
}
// put a blockette at the very end of a record, some bytes too far
static void over_end (Str &b, bool be, int most)
{
  static const int T[][2] = { { 100, 12 }, { 200, 52 }, { 201, 60 }, { 300, 60 }, { 310, 60 }, { 320, 64 }, { 390, 28 }, { 395, 16 }, { 400, 16 }, { 405, 6 }, { 500, 200 }, { 1000, 8 }, { 1001, 8 } };
  auto u2 = [&] (size_t p) { size_t v = 0; for (int k = 0; k < 2; k++) v = v << 8 | (uint8_t)b[p + (be ? k : 1 - k)]; return v; };
  int k = choose (13); size_t over = choose (most), len = T[k][1]; if (len > b.size () || b.size () + over - len < 56 || over > len - 4) return; size_t to = b.size () + over - len, at = u2 (46), n = 0; if (!at) return;
  while (n++ < 50 && at + 4 <= b.size ()) { size_t nx = u2 (at + 2); if (nx <= at || nx > b.size () - 4) break; at = nx; }
  if (at + 4 > b.size () || at + 4 > to) return; put (b, at + 2, to, 2, be); put (b, to, T[k][0], 2, be); put (b, to + 2, 0, 2, be); if (choose (2)) for (size_t z = to + 4; z < b.size (); z++) b[z] = choose (2) ? 'A' : 1; b[39]++; if (choose (3) == 2) put (b, 30, 0, 2, be); probe ("blockette-over-the-end");
}
static Str hostile_record ()
{
  GenOpt o; o.max_len = 6000; o.nob1000 = true; if (choose (6) == 5) o.max_samples = 3000; RefRec r = gen_record (o); Str b = r.raw;
  int n = 1 + choose (4); bool crc = choose (4) != 3;
  for (int i = 0; i < n; i++)
  {
    if (r.fmt == 3)
    {
      static const int F[][2] = { { 3, 1 }, { 4, 4 }, { 8, 2 }, { 10, 2 }, { 12, 1 }, { 13, 1 }, { 14, 1 }, { 15, 1 }, { 16, 8 }, { 24, 4 }, { 32, 1 }, { 33, 1 }, { 34, 2 }, { 36, 4 } };
      switch (choose (7))
      {
      case 0: case 1: case 2: { int k = choose (14); put (b, F[k][0], extreme (F[k][1]), F[k][1], false); break; }
      case 3: { double d; static const double D[] = { 0, -0.0, 1e300, -1e300, 1e-300, -1e-300, INFINITY, -INFINITY, NAN, 1e9, -1e9, 4e9 }; d = D[choose (12)]; memcpy (&b[16], &d, 8); break; }
      case 4: { // other extra headers
        uint16_t ex; uint8_t sl = b[33]; memcpy (&ex, &b[34], 2); if (40u + sl + ex > b.size ()) break; Str j = hostile_json (); b.replace (40 + sl, ex, j); ex = j.size (); memcpy (&b[34], &ex, 2); break; }
      case 5: { if (b.size () > 40) b[40 + choose (b.size () - 40)] = choose (256); break; }
      default: { // payload of other encoding or size
        static const int E[] = { 0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 16, 19, 30, 31, 32, 33, 100 }; b[15] = E[choose (17)]; if (choose (2)) { size_t keep = b.size () - std::min<size_t> (b.size () - 40, choose (200)); size_t cut = b.size () - keep; uint32_t dl; memcpy (&dl, &b[36], 4); if (cut <= dl) { b.resize (keep); dl -= cut; memcpy (&b[36], &dl, 4); } } break; }
      }
      if (crc) fixcrc (b);
    }
    else
    {
      static const int F[][2] = { { 0, 6 }, { 6, 1 }, { 7, 1 }, { 20, 2 }, { 22, 2 }, { 24, 1 }, { 25, 1 }, { 26, 1 }, { 28, 2 }, { 30, 2 }, { 32, 2 }, { 34, 2 }, { 36, 1 }, { 37, 1 }, { 38, 1 }, { 39, 1 }, { 40, 4 }, { 44, 2 }, { 46, 2 } };
      switch (choose (8))
      {
      case 7: over_end (b, r.be, 6); break; // a blockette that ends beyond the record
      case 0: case 1: { int k = choose (19); put (b, F[k][0], extreme (F[k][1]), F[k][1], r.be); break; }
      case 2: case 3: { // a blockette's type, link or content
        size_t at = 0; for (int k = 0; k < 2; k++) at = at << 8 | (uint8_t)b[46 + (r.be ? k : 1 - k)]; int skip = choose (4);
        while (skip-- && at + 4 < b.size ()) { size_t nx = 0; for (int k = 0; k < 2; k++) nx = nx << 8 | (uint8_t)b[at + 2 + (r.be ? k : 1 - k)]; if (nx <= at) break; at = nx; }
        static const int T[] = { 100, 200, 201, 202, 300, 310, 320, 390, 395, 400, 405, 500, 1000, 1001, 2000, 0, 65535 };
        switch (choose (4)) { case 0: put (b, at, T[choose (17)], 2, r.be); break; case 1: put (b, at + 2, extreme (2), 2, r.be); break; case 2: put (b, at + 4 + choose (60), extreme (1), 1, r.be); break; default: { int k = 4 + choose (40); put (b, at + k, extreme (2), 2, r.be); } }
        break; }
      case 4: { // a chain of blockettes over the payload
        static const int T[] = { 100, 200, 201, 300, 310, 320, 390, 395, 400, 405, 500, 1000, 1001, 2000, 1234 }; size_t at = 48; put (b, 46, at, 2, r.be); int q = choose (12); b[39] = choose (2) ? q : choose (256);
        for (int k = 0; k < q && at + 8 < b.size (); k++) { put (b, at, T[choose (15)], 2, r.be); size_t nx = k + 1 == q ? choose (2) ? 0 : choose (b.size () + 10) : at + 4 + choose (80); put (b, at + 2, nx, 2, r.be); if (choose (3) == 2) put (b, at + 4, extreme (4), 4, r.be); at = nx; }
        break; }
      case 5: b[choose (b.size ())] = choose (256); break;
      default: { put (b, 44, choose (2) ? extreme (2) : 48 + choose (100), 2, r.be); put (b, 30, extreme (2), 2, r.be); }
      }
    }
  }
  fault ("hostile-record");
  return b;
}
static Str hostile ()
{
  Str b; int n = 1 + choose (5);
  for (int i = 0; i < n; i++)
    switch (choose (9))
    {
    case 0: { GenOpt o; o.max_len = 4000; b += gen_record (o).raw; break; }
    case 1: { Str h = noise (40 + choose (60)); h[0] = 'M'; h[1] = 'S'; h[2] = 3; if (choose (2)) { h[33] = choose (70); h[34] = choose (100); h[35] = 0; h[36] = choose (256); h[37] = choose (4); h[38] = h[39] = 0; } b += h; fault ("fake-header"); break; }
    case 2: { Str h = noise (48 + choose (200)); for (int k = 0; k < 6; k++) h[k] = '0' + choose (10); h[6] = "DRQM"[choose (4)]; h[7] = ' '; put (h, 20, 2020, 2, choose (2)); put (h, 22, 1 + choose (366), 2, choose (2)); h[24] = choose (24); h[25] = h[26] = choose (60); if (choose (2)) put (h, 46, 48, 2, choose (2)); b += h; fault ("fake-header"); break; }
    case 3: { Str h = noise (logsize (3000)); b += h; fault ("noise"); break; }
    default: b += hostile_record ();
    }
  if (choose (3) == 2 && b.size ()) { b.resize (choose (b.size ()) + 1); fault ("cut"); }
  if (choose (4) == 3 && b.size ()) { size_t k = choose (b.size ()), m = std::min<size_t> (b.size () - k, choose (300)); Str x = b.substr (k, m); b.insert (choose (b.size () + 1), x); fault ("duplicated"); }
  if (choose (12) == 11) { Str x = b; while (b.size () < 60000 && x.size ()) b += x; fault ("repeated"); }
  return b;
}
// a record the library returned lies in the bytes given and agrees with itself
static void sane (const MS3Record *m, const char *from, const char *to, const char *what)
{
  NEED (m->record && (!from || (m->record >= from && m->record + m->reclen <= to)), "hostile:bounds", "%s: the record of %d bytes returned is not inside the bytes given", what, m->reclen);
  NEED (m->reclen >= 40, "hostile:length", "%s: a record of %d bytes", what, m->reclen);
  NEED (m->samplecnt >= 0 && m->numsamples >= 0, "hostile:count", "%s: %lld samples", what, (long long)m->samplecnt);
  NEED (memchr (m->sid, 0, sizeof (m->sid)), "hostile:sid", "%s: the source identifier is not terminated", what);
  if (m->extralength) { NEED (m->extra && strnlen (m->extra, m->extralength + 1) <= m->extralength, "hostile:extra", "%s: the extra headers are not terminated", what); }
  uint32_t off, len; if (msr3_data_bounds (m, &off, &len) == 0) NEED (len == 0 || (off <= (uint32_t)m->reclen && len <= (uint32_t)m->reclen - off), "hostile:payload", "%s: the payload %u+%u is outside the record of %d", what, off, len, m->reclen);
  (void)msr3_endtime (m); (void)msr3_nsperiod (m); (void)msr3_sampratehz (m);
}
static void touch_samples (const MS3Record *m) { if (m->numsamples > 0) { NEED (m->datasamples, "hostile:samples", "%lld samples without a buffer", (long long)m->numsamples); hash (m->datasamples, m->numsamples * ms_samplesize (m->sampletype)); } }
static void rec_out (char *r, int n, void *) { hash (r, n); }
static void with_record (MS3Record *m)
{
  int n = choose (5);
  for (int i = 0; i < n; i++)
    switch (choose (11))
    {
    case 0: msr3_print (m, choose (4)); break;
    case 1: { int64_t c = msr3_unpack_data (m, 0); log ("unpack: %lld of %lld", (long long)c, (long long)m->samplecnt); if (c >= 0) NEED (c == m->numsamples && m->numsamples <= std::max<int64_t> (m->samplecnt, 0), "hostile:samples", "unpacking returns %lld, the record has %lld of %lld", (long long)c, (long long)m->numsamples, (long long)m->samplecnt); touch_samples (m); break; }
    case 2: { MS3Record *d = msr3_duplicate (m, choose (2)); if (d) { touch_samples (d); msr3_print (d, 2); msr3_free (&d); } break; }
    case 3: { size_t z = choose (3) ? m->reclen + 300 : choose (200); char *b = (char *)user_alloc (z + 1); int r = msr3_repack_mseed3 (m, b, z, 0); if (r > 0) hash (b, r); user_free (b); break; }
    case 4: { int64_t p = 0; MS3Record c = *m; c.reclen = choose (3) ? 512 : choose (2) ? 4096 : 128; if (choose (2)) c.encoding = -1; if (c.samplecnt != c.numsamples && c.numsamples > 0) c.samplecnt = c.numsamples; int r = msr3_pack (&c, rec_out, NULL, &p, MSF_FLUSHDATA | (choose (2) ? MSF_PACKVER2 : 0), 0); log ("pack: %d", r); break; }
    case 5: mseh_print (m, choose (20)); break;
    case 6: { double v; char s[40]; int64_t q; LM_PARSED_JSON *ps = NULL; static const char *P[] = { "/FDSN/Time/Quality", "/FDSN/Event/Detection/0/Type", "/FDSN", "", "/a", "/FDSN/Time/Correction", "/0", "//" }; for (int k = 0; k < 3; k++) { const char *ptr = P[choose (8)]; switch (choose (4)) { case 0: mseh_get_ptr_r (m, ptr, &v, 'n', 0, choose (2) ? &ps : NULL); break; case 1: mseh_get_ptr_r (m, ptr, &q, 'i', 0, choose (2) ? &ps : NULL); break; case 2: if (mseh_get_ptr_r (m, ptr, s, 's', sizeof (s), choose (2) ? &ps : NULL) == 0) NEED (memchr (s, 0, sizeof (s)), "hostile:extra", "a string value is not terminated"); break; default: mseh_get_ptr_r (m, ptr, NULL, 0, 0, choose (2) ? &ps : NULL); } } mseh_free_parsestate (&ps); break; }
    case 7: { double v = 1; LM_PARSED_JSON *ps = NULL; mseh_set_ptr_r (m, "/FDSN/Time/Quality", &v, 'n', choose (2) ? &ps : NULL); if (ps) { if (choose (2)) mseh_serialize (m, &ps); mseh_free_parsestate (&ps); } if (m->extralength) NEED (m->extra, "hostile:extra", "extra headers without a buffer"); break; }
    case 8: msr3_resize_buffer (m); break;
    case 9: { char b[512]; int z = choose (512); msr3_pack_header3 (m, b, z, 0); msr3_pack_header2 (m, b, z, 0); break; }
    default: { char net[64], sta[64], loc[64], chan[64]; ms_sid2nslc (m->sid, net, sta, loc, chan); }
    }
}
// what a server may say about the range it sends
static void hostile_range (Server &v, size_t size)
{
  auto num = [&] () -> Str { switch (choose (8)) { case 0: return ""; case 1: return fmt ("%u", (unsigned)choose (size + 2)); case 2: return Str (1 + choose (30), '0') + fmt ("%u", (unsigned)choose (size + 2)); case 3: return Str (18 + choose (5), '9'); case 4: return Str (20 + choose (3), (char)('1' + choose (9))); case 5: return fmt ("%llu", (unsigned long long)extreme (8)); case 6: return Str (21 + choose (100), (char)('0' + choose (10))); default: return fmt ("-%u", choose (1000)); } };
  static const char *S[] = { "-", "-", "-", "-", " - ", "--", "", "/", "x" };
  v.range_text = Str (choose (6) ? "bytes " : "bytes") + Str (choose (4) == 3 ? choose (4) : 0, ' ') + num () + Str (S[choose (9)]) + num () + Str (choose (5) ? "/" : "") + (choose (2) ? Str ("*") : num ()); fault ("hostile-range");
}
SCENARIO (C16, parse)
{
  sim_setup (); capture_logs (); Str b = hostile (); tune_buffer (choose (2) ? 64 : b.size ()); nontrivial (); if (b.empty ()) return;
  const char *p = ro_copy (b, choose (4) != 3); size_t n = b.size (); log ("%zu bytes", n);
  for (int k = 0; k < 6; k++)
  {
    size_t at = k == 0 ? 0 : choose (n); size_t len = n - at; if (choose (4) == 3) len = choose (len + 1); Str piece = b.substr (at, len); const char *q = k == 0 && len == n ? p : ro_copy (piece); uint8_t ver = 99;
    int64_t d = ms3_detect (q, len, &ver); log ("detect %zu+%zu: %lld version %d", at, len, (long long)d, ver);
    NEED (ver == 2 || d <= (int64_t)UINT32_MAX + 40 + 255 + 65535, "hostile:detect", "a record of %lld bytes detected", (long long)d);
    if (choose (3) == 2) { int lim = choose (2) ? (int)len : (int)choose (len + 1); if (len >= 48) ms_parse_raw2 (q, lim, choose (4), (int)choose (3) - 1); if (len >= 40) ms_parse_raw3 (q, lim, choose (4)); }
    MS3Record *m = NULL; uint32_t fl = (choose (2) ? MSF_UNPACKDATA : 0) | (choose (3) == 2 ? MSF_VALIDATECRC : 0) | (choose (2) ? MSF_ATENDOFFILE : 0);
    int rc = msr3_parse (q, len, &m, fl, choose (4)); log ("parse: %d", rc);
    if (rc == 0) { sane (m, q, q + len, "parsing"); if ((fl & MSF_UNPACKDATA)) { NEED (m->numsamples == m->samplecnt, "hostile:samples", "%lld samples of %lld unpacked without an error", (long long)m->numsamples, (long long)m->samplecnt); touch_samples (m); } if (choose (4) == 3) { if (m->formatversion == 2) ms_parse_raw2 (m->record, m->reclen, choose (4), -1); else ms_parse_raw3 (m->record, m->reclen, choose (4)); } with_record (m); }
    msr3_free (&m);
  }
}
SCENARIO (C16, read)
{
  sim_setup (); capture_logs (); Str b = hostile (); if (choose (3) == 2) b += hostile (); tune_buffer (choose (2) ? 64 : std::max<size_t> (b.size (), 64)); nontrivial (); step_limit (3000000ull + 40000ull * b.size ());
  Source s = make_source ((SrcKind)choose (SRC_NKINDS), b, "in"); uint32_t fl = (choose (2) ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_SKIPNOTDATA : 0) | (choose (3) == 2 ? MSF_VALIDATECRC : 0);
  MS3FileParam *fp = s.msfp; MS3Record *m = NULL; if (s.kind == SRC_FD && !fp) fp = ms3_mstl_init_fd (make_fd (s.name)); MS3TraceList *l = choose (2) ? mstl3_init (NULL) : NULL; int64_t at = 0; int rc; size_t n = 0;
  while ((rc = ms3_readmsr_r (&fp, &m, s.path.c_str (), fl, choose (3))) == MS_NOERROR)
  {
    n++; int64_t off = fp->streampos - m->reclen; NEED (off >= at && fp->streampos <= (int64_t)b.size (), "hostile:position", "a record at %lld..%lld after one ending at %lld in %zu bytes", (long long)off, (long long)fp->streampos, (long long)at, b.size ()); at = fp->streampos;
    NEED (!memcmp (b.data () + off, m->record, m->reclen), "hostile:bytes", "the record at %lld does not have the bytes of the source", (long long)off);
    sane (m, NULL, NULL, "reading"); if (fl & MSF_UNPACKDATA) { NEED (m->numsamples == m->samplecnt, "hostile:samples", "%lld samples of %lld", (long long)m->numsamples, (long long)m->samplecnt); touch_samples (m); }
    if (l) mstl3_addmsr (l, m, choose (2), choose (2), 0, NULL); if (choose (3) == 2) with_record (m);
    if (fl & MSF_SKIPNOTDATA) continue; if (rc < 0) break;
  }
  log ("%zu records, then %s", n, codename (rc)); NEED (!m, "hostile:record", "a record along with %s", codename (rc));
  ms3_readmsr_r (&fp, &m, NULL, 0, 0);
  if (l) { mstl3_printtracelist (l, SEEDORDINAL, 1, 1, 1); mstl3_printgaplist (l, UNIXEPOCH, NULL, NULL); mstl3_printsynclist (l, NULL, (ms_subseconds_t)1); int64_t p = 0; uint32_t pf = MSF_FLUSHDATA | (choose (2) ? MSF_PACKVER2 : 0); if (choose (2)) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) if (g->numsamples) mstl3_convertsamples (g, "idft"[choose (4)], choose (2)); mstl3_resize_buffers (l); log ("pack %lld", (long long)mstl3_pack (l, rec_out, NULL, choose (2) ? 512 : 4096, choose (2) ? -1 : 11, &p, pf, 0, NULL)); mstl3_free (&l, 0); }
}
// one record right before memory that cannot be read, with what it says reaching over its end
SCENARIO (C16, edge)
{
  sim_setup (); capture_logs (); nontrivial (); GenOpt o; o.v2 = true; o.v3 = choose (6) == 5; o.max_len = 5000; RefRec r = gen_record (o); Str b = r.raw; tune_buffer (b.size ());
  if (r.fmt == 2) { over_end (b, r.be, choose (2) ? 3 : 12); if (choose (4) == 3) put (b, 39, choose (40), 1, r.be); } else { int k = 33 + choose (3); put (b, k, (uint8_t)b[k] + 1 + choose (3), 1, false); fixcrc (b); }
  if (choose (5) == 4) b.resize (b.size () - choose (std::min<size_t> (b.size () - 48, 20)));
  const char *p = ro_copy (b, true); MS3Record *m = NULL; uint32_t fl = (choose (2) ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_ATENDOFFILE : 0);
  int rc = msr3_parse (p, b.size (), &m, fl, 0); log ("parse %zu: %d", b.size (), rc); if (rc == 0) { sane (m, p, p + b.size (), "parsing"); with_record (m); } msr3_free (&m);
  if (r.fmt == 2) ms_parse_raw2 (p, b.size (), choose (4), (int)choose (3) - 1); else ms_parse_raw3 (p, b.size (), choose (4));
}
// a server that says anything about the range it sends
SCENARIO (C16, served)
{
  sim_setup (); capture_logs (); GenOpt go; go.max_len = 3000; Stream st = gen_stream (go, 6); nontrivial (); Str b = choose (3) ? st.bytes : hostile (); if (b.empty ()) return; tune_buffer (std::max<size_t> (b.size (), 64)); step_limit (3000000ull + 40000ull * b.size ());
  Source s = make_source (SRC_URL, b, "in"); Server &v = server (s.path); v.ranges = true; v.status = 0; v.redirects = 0; hostile_range (v, b.size ());
  int64_t x = choose (b.size ()); Str path = s.path + (choose (2) ? fmt ("@%lld", (long long)x) : fmt ("@%lld-%lld", (long long)x, (long long)(x + choose (b.size ()))));
  uint32_t fl = MSF_PNAMERANGE | (choose (2) ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_SKIPNOTDATA : 0); MS3FileParam *fp = NULL; MS3Record *m = NULL; int rc, n = 0;
  while ((rc = ms3_readmsr_r (&fp, &m, path.c_str (), fl, 0)) == MS_NOERROR)
  {
    n++; NEED (b.find (Str (m->record, m->reclen)) != Str::npos, "hostile:bytes", "a record that is not in what was sent"); sane (m, NULL, NULL, "reading"); if (n > 10000) violate ("hostile:endless", "more records than bytes");
  }
  log ("%s says '%s': %d records, then %s", path.c_str (), v.range_text.c_str (), n, codename (rc)); ms3_readmsr_r (&fp, &m, NULL, 0, 0);
}
SCENARIO (C16, list)
{
  sim_setup (); capture_logs (); Str b = hostile (); tune_buffer (choose (2) ? 64 : std::max<size_t> (b.size (), 64)); nontrivial (); step_limit (3000000ull + 40000ull * b.size ()); if (b.empty ()) return;
  uint32_t fl = (choose (2) ? MSF_UNPACKDATA : 0) | (choose (3) ? MSF_RECORDLIST : 0) | (choose (2) ? MSF_SKIPNOTDATA : 0); MS3TraceList *l = NULL; bool mem = choose (2); int64_t rc;
  if (mem) rc = mstl3_readbuffer (&l, ro_copy (b), b.size (), choose (2), fl | (choose (2) ? MSF_ATENDOFFILE : 0), NULL, 0); else { Source s = make_source (SRC_FILE, b, "in"); rc = ms3_readtracelist (&l, "in", NULL, choose (2), fl, 0); }
  log ("list from %zu bytes: %lld", b.size (), (long long)rc);
  if (l)
  {
    if (!mem && choose (3) == 2) { file ("in").data = choose (2) ? hostile () : b.substr (0, choose (b.size ())); fault ("changed"); }
    for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next)
      if (g->recordlist)
      {
        if (g->samplecnt > 1 << 24) continue;
        size_t need = g->samplecnt * 8; bool own = choose (2); char *o = own ? (char *)user_alloc (need + 1) : NULL; int64_t c = mstl3_unpack_recordlist (id, g, o, need, 0); log ("%s: %lld of %lld", id->sid, (long long)c, (long long)g->samplecnt);
        if (c >= 0) NEED (c == g->samplecnt, "hostile:samples", "%lld samples of %lld unpacked without an error", (long long)c, (long long)g->samplecnt); if (!own && c > 0) hash (g->datasamples, c * ms_samplesize (g->sampletype)); if (own) user_free (o);
      }
    mstl3_printtracelist (l, ISOMONTHDAY, 1, 1, 1); mstl3_printgaplist (l, SEEDORDINAL, NULL, NULL); mstl3_printsynclist (l, "X", (ms_subseconds_t)0); mstl3_free (&l, 0);
  }
}
SCENARIO (C16, decode)
{
  sim_setup (); nontrivial ();
  for (int k = 0; k < 10; k++)
  {
    static const int E[] = { 0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 16, 19, 30, 31, 32, 33, 2, 255 }; int e = E[choose (18)]; Str in;
    if (choose (3) == 2) { GenOpt o; o.v2 = false; RefRec r = gen_record (o); in = r.raw.substr (r.dataoff, r.datalen); if (in.size () && choose (2)) in[choose (in.size ())] ^= 1 << choose (8); if (choose (2)) e = r.enc; } else in = noise (logsize (1000));
    if (choose (3) == 2 && in.size ()) in.resize (choose (in.size ())); if (in.empty ()) in = "x";
    uint8_t ss = 0; char st = 0; ms_encoding_sizetype (e, &ss, &st); int64_t want = choose (2) ? logsize (3000) : ss ? (int64_t)(in.size () / ss) : 10; size_t room = choose (3) ? (size_t)want * (ss ? ss : 1) : choose (want * 8 + 1); char *out = (char *)user_alloc (room + 1); memset (out, 0x77, room + 1); char type = 0;
    // word access: payloads in records are within larger buffers but not aligned
    const char *p = ro_copy (in); int64_t c = ms_decode_data (p, in.size (), e, want, out, room, &type, choose (2), choose (2) ? "FDSN:XX_A__B_H_Z" : NULL, 0); log ("encoding %d, %zu bytes, %lld samples wanted, room %zu: %lld", e, in.size (), (long long)want, room, (long long)c);
    NEED (c <= want, "hostile:decode", "%lld samples decoded where %lld are wanted", (long long)c, (long long)want); if (c > 0) { NEED ((size_t)c * ms_samplesize (type) <= room, "hostile:decode", "%lld samples of type %c in %zu bytes", (long long)c, type, room); hash (out, c * ms_samplesize (type)); }
    NEED (out[room] == 0x77, "hostile:decode", "the byte after the %zu bytes of output changed", room);
    user_free (out);
  }
}
SCENARIO (C16, program)
{
  sim_setup (); nontrivial (); int n = 1 + choose (2); std::vector<Str> a; static const char *L[] = { "-p", "-pp", "-ppp", "-d", "-D", "-tg", "-T", "-s", "-g", "-S", "-G", "-O", "-z", "-L", "-t", "-snd", "-snd", "-v", "-vvv", "-P" }; size_t tot = 0;
  for (int i = choose (6); i >= 0; i--) a.push_back (L[choose (20)]); if (choose (3) == 2) { a.push_back ("-o"); a.push_back (choose (3) ? "copy" : "-"); } if (choose (3) == 2) { a.push_back ("-b"); a.push_back ("bin"); } if (choose (4) == 3) { a.push_back ("-m"); a.push_back (choose (2) ? "B" : "[A-Z]*_"); } if (choose (4) == 3) { a.push_back ("-ts"); a.push_back ("2020-01-01"); } if (choose (4) == 3) { a.push_back ("-tf"); a.push_back (fmt ("%d", choose (3))); }
  for (int i = 0; i < n; i++) { Str b = hostile (); tot += b.size (); Source s = make_source (choose (4) == 3 ? SRC_URL : SRC_FILE, b, fmt ("in%d", i)); Str arg = s.path; if (choose (5) == 4) { uint32_t x = choose (b.size () + 1), y = choose (b.size () + 1); arg += choose (2) ? fmt ("@%u", x) : fmt ("@%u-%u", x, y); } a.push_back (arg); }
  tune_buffer (choose (2) ? 64 : std::max<size_t> (tot, 64)); step_limit (6000000ull + 60000ull * tot);
  Str cl; for (auto &x : a) cl += " " + x; log ("msi%s", cl.c_str ()); MsiResult r = run_msi (a); log ("status %d, %zu bytes", r.status, r.out.size ()); NEED (r.status == 0 || r.status == 1 || r.status == 255, "hostile:status", "msi ends with %d", r.status);
}
