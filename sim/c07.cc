// C07: rolling-buffer packing emits every sample exactly once with the right time
#include "scn.h"
using namespace sim;
// a rate in format 2 is a fraction of two 16-bit numbers within 0.0001 of it, or a 32-bit float
static double v2_rate_tol (double hz) { return hz < 1 ? 1e-6 * hz : hz == floor (hz) ? 1e-9 * hz : std::max (1.01e-4, 1.2e-7 * hz); }

struct PSeg { int64_t anchor; Samples s; size_t e = 0; int packs = 0; int64_t next (double rate) const { return sample_time (anchor, e, rate); } int64_t last (double rate) const { return sample_time (anchor, (int64_t)s.n () - 1, rate); } };
struct Chan { Str sid; char type; int enc; double rate; int pubver; std::vector<PSeg> segs; int64_t p () const { return (int64_t)(1e9 / rate + 0.5); } };
static std::vector<Str> s_out; static bool s_bad;
static void handler (char *rec, int len, void *h) { if (h != (void *)&s_out) s_bad = true; s_out.push_back (Str (rec, len)); }
static int ensize (int enc) { return enc == 0 ? 1 : enc == 1 ? 2 : enc == 5 ? 8 : 4; }
static bool unencodable (const Samples &s, size_t from, int enc)
{
  if (s.type != 'i') return false;
  for (size_t i = from; i < s.n (); i++)
  {
    if (enc == 1 && (s.i[i] > 32767 || s.i[i] < -32768)) return true;
    int64_t d = (int64_t)s.i[i] - (i ? s.i[i - 1] : 0); if (enc == 11 && (d >= 536870911 || d <= -536870912)) return true;
  }
  return false;
}
static int enc_for (char type, int enc) { return type == 't' ? 0 : type == 'f' ? 4 : type == 'd' ? 5 : enc < 0 ? 11 : enc; }
// add samples at a time; by a record structure or from a record
static void add_samples (MS3TraceList *l, const Chan &c, int64_t at, const Samples &s, bool split, bool viarec)
{
  MS3Record *m = NULL;
  if (viarec)
  {
    RefRec t; t.fmt = 3; t.sid = c.sid; t.pubver = c.pubver; t.rate = c.rate; t.enc = c.type == 'i' ? 3 : enc_for (c.type, 3); if (choose (2)) t.extra = "{\"source\":1}";
    RefRec r = make_piece (t, at, s); NEED (r.raw.size (), "pack:harness", "no record");
    NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused");
    NEED (mstl3_addmsr (l, m, split, 1, 0, NULL), "deliver:refused", "samples not taken");
  }
  else
  {
    m = msr3_init (NULL); strcpy (m->sid, c.sid.c_str ()); m->pubversion = c.pubver; m->starttime = at; m->samprate = choose (2) || c.rate >= 1 ? c.rate : -1.0 / c.rate; m->samplecnt = m->numsamples = s.n (); m->sampletype = s.type;
    Str b = s.bytes (); const char *p = ro_copy (b); m->datasamples = (void *)p;
    NEED (mstl3_addmsr (l, m, split, 1, 0, NULL), "deliver:refused", "samples not taken");
    m->datasamples = NULL;
  }
  msr3_free (&m);
}
// one record handed to the callback, against the model; returns number of samples
static void take (std::vector<Chan> &ch, const Str &raw, bool v2, int reclen, const Str &extra, int tq, bool flush, int enc)
{
  RefRec r; Str why; size_t L = decode_rec (raw.data (), raw.size (), r, &why);
  NEED (L, "pack:invalid", "a packed record of %zu bytes is not valid: %s", raw.size (), why.c_str ());
  NEED (L == raw.size () && (int)L <= reclen && (!v2 || (int)L == reclen), "pack:length", "packed record of %zu bytes (says %zu), %d requested", raw.size (), L, reclen);
  NEED (r.fmt == (v2 ? 2 : 3), "pack:version", "packed record has format version %d", r.fmt);
  MS3Record *m = NULL; const char *p = ro_copy (raw); int rc = msr3_parse (p, raw.size (), &m, MSF_UNPACKDATA | MSF_VALIDATECRC, 0);
  NEED (rc == 0, "pack:unreadable", "a packed record is refused with %s", codename (rc));
  Str d = diff_got (capture (m, 0), r, 0, true, false); NEED (d.empty (), "pack:unreadable", "a packed record reads as: %s", d.c_str ());
  msr3_free (&m); ro_free (p);
  log ("record %s", describe (r).c_str ());
  NEED (r.nsamp (), "pack:empty", "a record without samples is emitted: %s", describe (r).c_str ());
  Str miss;
  for (auto &c : ch)
  {
    if (c.sid != r.sid || (c.pubver != r.pubver && !(v2 && c.pubver > 4))) continue;
    for (auto &s : c.segs)
    {
      int64_t tol = 2 + s.packs + (v2 ? (r.b1001 ? 1000 : 100000) : 0), want = s.next (c.rate);
      if (!(r.start <= want + 2 + s.packs && r.start >= want - tol)) continue;
      
      if (s.e >= s.s.n ()) continue;
      NEED (r.s.type == c.type, "pack:samples", "samples of %s are emitted as type %c", c.sid.c_str (), r.s.type);
      // buffers may overlap in time: the one these samples come from
      if (s.e + r.nsamp () > s.s.n ()) { miss = fmt ("%s at %lld: %zu samples emitted, only %zu are left", c.sid.c_str (), (long long)r.start, (size_t)r.nsamp (), s.s.n () - s.e); continue; }
      if (r.s.bytes () != slice (s.s, s.e, r.nsamp ()).bytes ()) { miss = fmt ("%s at %lld: the samples emitted are not the next ones", c.sid.c_str (), (long long)r.start); continue; }
      NEED (fabs (r.hz () - c.rate) <= (v2 ? v2_rate_tol (c.rate) : 1e-9 * c.rate), "pack:rate", "%s: rate %.12g instead of %.12g", c.sid.c_str (), r.hz (), c.rate);
      NEED (r.enc == enc_for (c.type, enc), "pack:encoding", "encoding %d instead of %d", r.enc, enc_for (c.type, enc));
      if (!v2) NEED (r.extra == extra, "pack:extra", "extra headers '%s' instead of '%s'", r.extra.c_str (), extra.c_str ());
      else if (tq >= 0) NEED (r.b1001 && r.tq == tq, "pack:extra", "timing quality %d instead of %d", r.tq, tq);
      if (!flush)
      {
        int E = r.enc; size_t room = reclen - r.dataoff;
        if (E < 10) NEED ((size_t)r.nsamp () == room / ensize (E), "pack:partial", "a record with %zu of %zu samples is emitted without flushing", (size_t)r.nsamp (), room / ensize (E));
        else if (!v2) NEED (r.datalen == room / 64 * 64, "pack:partial", "a record with %u of %zu payload bytes is emitted without flushing", r.datalen, room / 64 * 64);
      }
      s.e += r.nsamp (); return;
    }
  }
  if (!miss.empty ()) violate ("pack:samples", "%s", miss.c_str ());
  violate ("pack:time", "record %s does not start at the next sample of any buffer", describe (r).c_str ());
}
static void check_state (const MS3TraceList *l, const std::vector<Chan> &ch)
{
  check_list (l, true, "after packing", true);
  for (auto &c : ch)
  {
    int64_t want = 0, have = 0; for (auto &s : c.segs) want += s.s.n () - s.e;
    std::vector<Str> left; for (auto &s : c.segs) if (s.e < s.s.n ()) left.push_back (slice (s.s, s.e, s.s.n () - s.e).bytes ());
    for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) if (c.sid == id->sid && id->pubversion == c.pubver) for (MS3TraceSeg *g = id->first; g; g = g->next)
    {
      NEED (g->numsamples == g->samplecnt, "pack:remaining", "%s: a segment counts %lld and holds %lld samples", id->sid, (long long)g->samplecnt, (long long)g->numsamples);
      have += g->numsamples; if (!g->numsamples) continue;
      Str b ((char *)g->datasamples, g->numsamples * ms_samplesize (g->sampletype)); auto it = std::find (left.begin (), left.end (), b);
      NEED (it != left.end (), "pack:remaining", "%s: the %lld samples at %lld left in the list are not those not yet emitted", id->sid, (long long)g->numsamples, (long long)g->starttime); left.erase (it);
    }
    NEED (have == want, "pack:remaining", "%s: %lld samples are left in the list, %lld are not yet emitted", c.sid.c_str (), (long long)have, (long long)want);
  }
}
static void rolling (int nch, int nops, bool faults)
{
  static const double R[] = { 1, 10, 100, 20, 40, 0.1, 33.333333, 250, 0.016666666666666666, 8, 1.5, 437.719, 812.3457, 19.98765, 3000.3 };
  bool v2 = choose (3) == 2, wide = choose (6) == 5; int enc = v2 ? 11 : 11; static const int E[] = { 11, 10, 3, 1, -1 }; enc = E[choose (5)];
  int reclen = v2 ? 128 << choose (6) : choose (4) == 3 ? 256 + choose (9000) : 192 + choose (600);
  std::vector<Chan> ch;
  for (int i = 0; i < nch; i++)
  {
    Chan c; bool dup = false; c.sid = sid_for (choose (20)); c.pubver = 1 + choose (4); for (auto &x : ch) if (x.sid == c.sid && x.pubver == c.pubver) dup = true; if (dup) continue;
    static const char T[] = "iiifdt"; c.type = T[choose (6)]; do c.rate = R[choose (v2 && reclen == 128 ? 11 : 15)] /* a 128-byte record with blockette 100 has no room for a Steim frame */; while (v2 && c.rate != (double)(float)c.rate && c.rate < 1); c.enc = enc_for (c.type, enc); ch.push_back (c);
  }
  tune_buffer (32768);
  log ("%zu channels, version %d, record length %d, encoding %d", ch.size (), v2 ? 2 : 3, reclen, enc);
  Str extra; int tq = -1; Str xj; if (choose (3) == 2) { tq = choose (101); xj = fmt ("{\"FDSN\":{\"Time\":{\"Quality\":%d}}}", tq); extra = xj; } else if (!v2 && choose (4) == 3) { xj = extra = "{\"operator\":{\"note\":\"x\"}}"; }
  MS3TraceList *l = mstl3_init (NULL); nontrivial (); alloc_fail_off ();
  int64_t t0 = some_time (v2 ? 2 : 3, cal2ns (2021, 1 + choose (60), choose (24), choose (60), 0, 0)) + (choose (2) ? choose (1000) * (v2 ? 1000000 : 1000001) : 0);
  auto gen = [&] (const Chan &c) { size_t n = choose (4) == 3 ? 1 + logsize (3000) : 1 + logsize (200); return gen_samples (c.type, n, enc == 1 && !wide ? choose (2) : wide ? choose (7) : (enc == 10 || enc == 11) && choose (4) == 3 ? 8 : choose (4)); };
  for (int k = 0; k < nops; k++)
  {
    int op = choose (8);
    if (op < 5)
    {
      Chan &c = ch[choose (ch.size ())]; Samples s = gen (c); int64_t p = c.p (); int64_t at; int64_t n = s.n (); bool vr = choose (2);
      int how = c.segs.empty () ? 9 : choose (6);
      if (how <= 2)
      { // continue the newest, or another, buffer
        PSeg &g = c.segs[how < 2 ? c.segs.size () - 1 : choose (c.segs.size ())]; at = sample_time (g.anchor, g.s.n (), c.rate); int64_t end = sample_time (at, n - 1, c.rate); bool hit = false;
        for (auto &o : c.segs) if (&o != &g && ((llabs (o.next (c.rate) - end - p) <= 3 * p) || llabs (o.last (c.rate) + p - at) <= 3 * p)) hit = true;
        if (hit) continue;
        add_samples (l, c, at, s, true, vr); append (g.s, s); log ("add %lld samples of %s at its end", (long long)n, c.sid.c_str ());
      }
      else if (how == 3)
      { // before a buffer of which nothing was emitted
        PSeg &g = c.segs[choose (c.segs.size ())]; if (g.e) continue;
        at = g.anchor - (int64_t)llround ((double)n * 1e9 / c.rate); if (v2) at = at / 1000 * 1000; int64_t end = sample_time (at, n - 1, c.rate); bool hit = false;
        if (llabs (end + p - g.anchor) > 2000 || (double)p * 0.4 < 2000) continue;
        if (sample_time (at, n, c.rate) != g.anchor) continue;
        for (auto &o : c.segs) if (&o != &g && (llabs (o.last (c.rate) + p - at) <= 3 * p || llabs (o.next (c.rate) - end - p) <= 3 * p)) hit = true;
        if (hit) continue;
        add_samples (l, c, at, s, true, vr); Samples z = s; append (z, g.s); g.s = z; g.anchor = at; log ("add %lld samples of %s before a buffer", (long long)n, c.sid.c_str ());
      }
      else if (how == 4 && c.segs.size () > 1)
      { // fill the gap between two buffers
        size_t a = choose (c.segs.size ()), b = choose (c.segs.size ()); PSeg &x = c.segs[a], &y = c.segs[b]; if (a == b || y.e) continue;
        int64_t gap = y.anchor - sample_time (x.anchor, x.s.n (), c.rate); if (gap < p) continue; double q = (double)gap * c.rate / 1e9; n = llround (q); if (fabs (q - n) > 1e-6 || n > 3000) continue;
        if (sample_time (x.anchor, x.s.n () + n, c.rate) != y.anchor) continue;
        at = sample_time (x.anchor, x.s.n (), c.rate); int64_t end = sample_time (at, n - 1, c.rate); bool hit = false;
        for (size_t i = 0; i < c.segs.size (); i++) if (i != a && i != b && (llabs (c.segs[i].last (c.rate) + p - at) <= 3 * p || llabs (c.segs[i].next (c.rate) - end - p) <= 3 * p)) hit = true;
        if (hit) continue;
        s = gen_samples (c.type, n, enc == 1 ? 0 : choose (4)); add_samples (l, c, at, s, true, vr); append (x.s, s); append (x.s, y.s); x.packs += y.packs; c.segs.erase (c.segs.begin () + b); log ("add %lld samples of %s between two buffers", (long long)n, c.sid.c_str ()); probe ("healed");
      }
      else
      {
        if (c.segs.empty ()) at = t0;
        else { const PSeg &g = c.segs[choose (c.segs.size ())]; int64_t skip = (int64_t)(10 + choose (100)); at = choose (3) ? sample_time (g.anchor, g.s.n () + skip, c.rate) : sample_time (g.anchor, 0, c.rate) - (int64_t)llround ((n + skip) * 1e9 / c.rate); if (choose (3) == 2) at += p / 4; }
        if (v2) at = at / 1000 * 1000;
        int64_t end = sample_time (at, n - 1, c.rate); bool hit = false;
        for (auto &o : c.segs) { if (llabs (o.next (c.rate) - at) <= 3 * p || llabs (o.last (c.rate) + p - at) <= 3 * p || llabs (o.next (c.rate) - end - p) <= 3 * p) hit = true; }
        if (hit) continue;
        add_samples (l, c, at, s, true, vr); PSeg g; g.anchor = at; g.s = s; c.segs.push_back (g); log ("add %lld samples of %s at %lld", (long long)n, c.sid.c_str (), (long long)at);
      }
    }
    if (op >= 5 || k + 1 == nops)
    {
      bool last = k + 1 == nops, flush = last || choose (3) == 2, keep = !last && choose (6) == 5; if (keep && choose (2)) flush = true;
      uint32_t fl = (flush ? MSF_FLUSHDATA : 0) | (v2 ? MSF_PACKVER2 : 0) | (keep ? MSF_MAINTAINMSTL : 0);
      bool fail = faults && choose (3) == 2 && !last; s_out.clear (); s_bad = false; int64_t ps = -77;
      std::vector<Chan> before = ch; Str st; if (keep) st = seginfo (l);
      char *xp = NULL; if (!xj.empty ()) { xp = (char *)malloc (xj.size () + 1); strcpy (xp, xj.c_str ()); }
      if (fail) alloc_fail_at (choose (12));
      int64_t rc = mstl3_pack (l, handler, &s_out, reclen, enc, &ps, fl, 0, xp);
      bool failed = fail && alloc_failed () > 0; alloc_fail_off ();
      if (xp) { NEED (xj == xp, "pack:input", "the extra headers of the caller are changed"); free (xp); }
      log ("pack%s%s: %lld records, %lld samples%s", flush ? " flush" : "", keep ? " keep" : "", (long long)rc, (long long)ps, failed ? ", allocation failed" : "");
      NEED (!s_bad, "pack:handler", "the handler does not get the caller's data");
      size_t e0 = 0, e1 = 0; for (auto &c : ch) for (auto &s : c.segs) e0 += s.e;
      for (auto &r : s_out) take (ch, r, v2, reclen, extra, tq, flush, enc);
      for (auto &c : ch) for (auto &s : c.segs) { e1 += s.e; s.packs++; }
      if (rc < 0)
      {
        bool hard = failed; for (auto &c : ch) for (auto &s : c.segs) if (s.e < s.s.n () && unencodable (s.s, s.e ? s.e - 1 : 0, enc_for (c.type, enc))) hard = true;
        if (v2) for (auto &c : ch) for (auto &s : c.segs) { if (c.type == 'i' && (enc == 11 || enc == -1) && reclen > 65536) hard = true; (void)s; }
        NEED (hard, "pack:error", "packing fails without reason");
        probe ("pack-error"); if (ps == -77) ps = 0;
      }
      else NEED (rc == (int64_t)s_out.size (), "pack:count", "%lld records reported, %zu emitted", (long long)rc, s_out.size ());
      NEED (ps == (int64_t)(e1 - e0), "pack:count", "%lld samples reported, %zu emitted", (long long)ps, e1 - e0);
      if (rc >= 0 && flush) for (auto &c : ch) for (auto &s : c.segs) NEED (s.e == s.s.n (), "pack:left", "%s: %zu samples are left after a flush", c.sid.c_str (), s.s.n () - s.e);
      if (rc >= 0 && !flush) for (auto &c : ch) for (auto &s : c.segs)
      {
        int E2 = enc_for (c.type, enc); size_t most = E2 < 10 ? reclen / ensize (E2) : reclen / 64 * (E2 == 10 ? 60 : 105);
        NEED (s.s.n () - s.e <= most, "pack:left", "%s: %zu samples are left, enough to fill a record of %d bytes", c.sid.c_str (), s.s.n () - s.e, reclen);
      }
      if (keep) { NEED (seginfo (l) == st, "pack:kept", "packing that leaves the list alone changes it"); ch = before; }
      else check_state (l, ch);
      // a later call with an encoding that can hold the samples
      if (last && rc < 0) { enc = 3; if (reclen < 128) reclen = 128; s_out.clear (); ps = 0; rc = mstl3_pack (l, handler, &s_out, reclen, enc, &ps, fl, 0, NULL); NEED (rc == (int64_t)s_out.size () && rc >= 0, "pack:retry", "packing with another encoding fails"); for (auto &r : s_out) take (ch, r, v2, reclen, "", -1, true, enc); for (auto &c : ch) for (auto &s : c.segs) NEED (s.e == s.s.n (), "pack:left", "%s: %zu samples are left after a flush", c.sid.c_str (), s.s.n () - s.e); }
    }
  }
  hashs (seginfo (l)); mstl3_free (&l, 0);
}
SCENARIO (C07, rolling) { sim_setup (); rolling (1 + choose (4), 3 + choose (25), false); }
SCENARIO (C07, failing) { sim_setup (); rolling (1 + choose (3), 3 + choose (15), true); }

// one record structure, read or made, packed again
SCENARIO (C07, record)
{
  sim_setup ();
  GenOpt o; o.nob1000 = false; o.legacy = choose (16) == 15; RefRec r = gen_record (o); MS3Record *m = NULL;
  NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused");
  bool v2 = r.fmt == 2 ? choose (3) != 2 : choose (4) == 3; Got g0 = capture (m, 0); Str x0 = g0.extra;
  Str net = r.net; if (r.fmt == 3) { char n[32], s[32], lo[32], c[32]; if (ms_sid2nslc (m->sid, n, s, lo, c) || strlen (n) > 2 || strlen (s) > 5 || strlen (lo) > 2 || strlen (c) != 3) v2 = false; double hz = r.hz (); if ((hz != floor (hz) && (hz < 1 || choose (2))) || hz > 30000) v2 = false; if (r.start % 1000 || !year_for_v2 (r.start) || !year_for_v2 (r.end ())) v2 = false; }
  if (choose (3) == 2) { static const int E[] = { 11, 10, 3, 1 }; if (r.s.type == 'i') m->encoding = E[choose (4)]; }
  m->reclen = v2 ? 256 << choose (5) : (int)(40 + r.sid.size () + x0.size () + 64 + choose (2000)); if (choose (8) == 7) m->reclen = -1;
  int reclen = m->reclen < 0 ? 4096 : m->reclen; bool flush = choose (4) != 3; int enc = m->encoding;
  if (m->numsamples > 0 && enc_for (m->sampletype, enc) != enc) return;
  m->formatversion = choose (2) ? (v2 ? 2 : 3) : m->formatversion; uint32_t fl = (v2 ? MSF_PACKVER2 : 0) | (flush ? MSF_FLUSHDATA : 0); if (!v2) m->formatversion = 3;
  nontrivial (); s_out.clear (); s_bad = false; int64_t ps = -77; Samples all = r.s; Str sam = g0.samples;
  auto cap = [&] () { int k = m->reclen; m->reclen = r.raw.size (); Got g = capture (m, 0); m->reclen = k; return g; }; Got g1 = cap ();
  int rc = msr3_pack (m, handler, &s_out, &ps, fl, 0);
  log ("%s packed as version %d, length %d, encoding %d, flush %d: %d records, %lld samples", describe (r).c_str (), v2 ? 2 : 3, reclen, enc, (int)flush, rc, (long long)ps);
  NEED (diff_gg (g1, cap ()).empty () && (m->reclen < 0 ? 4096 : m->reclen) == reclen, "pack:input", "the record structure is changed by packing");
  NEED (!s_bad, "pack:handler", "the handler does not get the caller's data");
  size_t e = 0;
  for (auto &raw : s_out)
  {
    RefRec q; Str why; size_t L = decode_rec (raw.data (), raw.size (), q, &why); NEED (L == raw.size (), "pack:invalid", "a packed record of %zu bytes is not valid: %s", raw.size (), why.c_str ());
    NEED ((int)L <= reclen && (!v2 || (int)L == reclen) && q.fmt == (v2 ? 2 : 3), "pack:length", "packed record of %zu bytes, version %d, %d requested", L, q.fmt, reclen);
    MS3Record *w = NULL; const char *p = ro_copy (raw); int pc = msr3_parse (p, raw.size (), &w, MSF_UNPACKDATA | MSF_VALIDATECRC, 0); NEED (pc == 0, "pack:unreadable", "a packed record is refused with %s", codename (pc)); Str d = diff_got (capture (w, 0), q, 0, true, false); NEED (d.empty (), "pack:unreadable", "a packed record reads as: %s", d.c_str ()); msr3_free (&w); ro_free (p);
    int64_t want = sample_time (r.start, e, r.rate), tol = 2 + (v2 ? (q.b1001 ? 1000 : 100000) : 0); if (!e) tol = 0;
    if (r.hz () == 0) want = r.start;
    NEED (q.start <= want + 2 && q.start >= want - tol, "pack:time", "record %s starts at %lld, its first sample is at %lld", describe (q).c_str (), (long long)q.start, (long long)want);
    NEED (q.sid == r.sid && q.flags == r.flags, "pack:header", "identifier or flags (0x%x, 0x%x) differ", q.flags, r.flags);
    NEED (v2 && r.fmt == 3 && (r.pubver > 4 || !r.pubver) ? true : q.pubver == r.pubver, "pack:header", "publication version %d instead of %d", q.pubver, r.pubver);
    if (!v2) NEED (fabs (q.hz () - r.hz ()) <= 1e-15 * r.hz (), "pack:rate", "rate %.12g instead of %.12g", q.rate, r.rate); else NEED (fabs (q.hz () - r.hz ()) <= v2_rate_tol (r.hz ()), "pack:rate", "rate %.12g instead of %.12g", q.hz (), r.hz ());
    if (!v2) NEED (q.extra == x0, "pack:extra", "extra headers '%s' instead of '%s'", q.extra.c_str (), x0.c_str ());
    else if (r.fmt == 2) { std::map<Str, Str> a = q.leaves, b = r.leaves; if (!b.count ("/FDSN/Time/Quality")) a.erase ("/FDSN/Time/Quality"); for (int z = 0; z < 4; z++) { Str k = fmt ("/FDSN/Time/Exception/%d/VCOCorrection", z); if (!b.count (k) && a.count (k) && a[k] == "0") a.erase (k); } /* none given, and none can be said */ Str df; for (auto &z : a) if (!b.count (z.first) || b[z.first] != z.second) df += z.first + "=" + z.second + " "; df += "instead of "; for (auto &z : b) if (!a.count (z.first) || a[z.first] != z.second) df += z.first + "=" + z.second + " "; NEED (a == b, "pack:extra", "extra headers of the packed record differ: %s", df.c_str ()); }
    if (q.nsamp ()) { NEED (e + q.nsamp () <= all.n () && q.s.bytes () == slice (all, e, q.nsamp ()).bytes (), "pack:samples", "the samples emitted at %zu are not the next ones", e); NEED (q.enc == enc, "pack:encoding", "encoding %d instead of %d", q.enc, enc); }
    e += q.nsamp ();
  }
  if (rc < 0)
  {
    bool hard = unencodable (all, e ? e - 1 : 0, enc) || (enc > 11 && all.n ()) || (v2 && reclen <= 256 && !x0.empty ()) || (v2 && enc >= 10 && reclen <= 128) || reclen < (int)(40 + r.sid.size () + x0.size () + 64);
    NEED (hard, "pack:error", "packing fails without reason");
    probe ("pack-error"); if (ps == -77) ps = 0;
  }
  else { NEED (rc == (int)s_out.size (), "pack:count", "%d records reported, %zu emitted", rc, s_out.size ()); if (flush) NEED (e == all.n (), "pack:left", "%zu samples are left after a flush", all.n () - e); }
  NEED (ps == (int64_t)e, "pack:count", "%lld samples reported, %zu emitted", (long long)ps, e);
  msr3_free (&m);
}
// repacking a read record as version 3 without decoding
SCENARIO (C07, repack)
{
  sim_setup ();
  GenOpt o; o.mixed_endian = true; RefRec r = gen_record (o); MS3Record *m = NULL; nontrivial ();
  NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, choose (2) ? MSF_UNPACKDATA : 0, 0) == 0, "deliver:parse", "refused");
  Str x0 = m->extra ? m->extra : ""; Str sid = r.sid; int64_t st = r.start; int pv = r.pubver;
  if (choose (3) == 2) { sid = "FDSN:NEW_STATION_LL_X_Y_Z"; strcpy (m->sid, sid.c_str ()); }
  if (choose (3) == 2) { st += 123456789; m->starttime = st; }
  if (choose (3) == 2) { pv = choose (256); m->pubversion = pv; }
  size_t need = 40 + sid.size () + x0.size () + r.datalen; int64_t len = (int64_t)need; int how = choose (4);
  if (how == 1) len += 1 + choose (300); else if (how == 2) len -= 1 + choose (std::min<uint32_t> (need - 1, 80)); else if (how == 3) len = choose (need);
  char *buf = (char *)malloc (len ? len : 1); Got g0 = capture (m, 0);
  int rc = msr3_repack_mseed3 (m, buf, len, 0);
  log ("repack %s into %lld bytes, %zu needed: %d", describe (r).c_str (), (long long)len, need, rc);
  NEED (diff_gg (g0, capture (m, 0)).empty (), "pack:input", "the record structure is changed by repacking");
  if (rc < 0)
  {
    bool le_steim = r.fmt == 2 && (r.enc == 10 || r.enc == 11) && !(r.payload_be < 0 ? r.be : r.payload_be);
    NEED (len < (int64_t)need || le_steim, "repack:error", "repacking into a buffer of %lld bytes fails, %zu are needed", (long long)len, need);
  }
  else
  {
    NEED (rc <= (int)need && rc <= len, "repack:length", "repacked length %d, at most %zu expected, buffer %lld", rc, need, (long long)len);
    RefRec q; Str why; size_t L = decode_rec (buf, rc, q, &why); NEED (L == (size_t)rc, "repack:invalid", "the repacked record is not valid: %s", why.c_str ());
    NEED (q.fmt == 3 && q.sid == sid && q.start == st && q.pubver == pv && q.flags == r.flags && fabs (q.hz () - r.hz ()) <= 1e-15 * r.hz () && (q.enc == r.enc || !r.nsamp ()) && q.extra == x0, "repack:header", "header of the repacked record differs: %s", describe (q).c_str ());
    NEED (q.s.n () == r.s.n () && (!r.nsamp () || q.s.bytes () == r.s.bytes ()), "repack:samples", "samples of the repacked record differ");
    Str raw (buf, rc); MS3Record *w = NULL; const char *p = ro_copy (raw); int pc = msr3_parse (p, raw.size (), &w, MSF_UNPACKDATA | MSF_VALIDATECRC, 0); NEED (pc == 0, "pack:unreadable", "a repacked record is refused with %s", codename (pc)); Str d = diff_got (capture (w, 0), q, 0, true, false); NEED (d.empty (), "pack:unreadable", "a repacked record reads as: %s", d.c_str ()); msr3_free (&w); ro_free (p);
  }
  free (buf); msr3_free (&m);
}
// every extra header that miniSEED 2 can hold survives packing as version 2 and reading
static void headers2 ()
{
  sim_setup ();
  std::map<Str, Str> want; Str det, cal, exc, J;
  auto qs = [] (const Str &s) { return "\"" + s + "\""; };
  auto word = [&] (size_t max) { Str s; size_t n = 1 + choose (max); Rng g = bulk (); for (size_t i = 0; i < n; i++) s += (char)('A' + g.below (26)); return s; };
  int64_t t0 = some_time (2, cal2ns (2021, 1 + choose (300), choose (24), choose (60), choose (60), 0));
  auto tm = [&] (bool usec) { char b[50]; int64_t t = t0 + (int64_t)choose (1000000) * (usec ? 7001000 : 700000000) + (int64_t)choose (10000) * 100000; return Str (ms_nstime2timestr (t, b, ISOMONTHDAY_Z, NANO_MICRO_NONE)); };
  struct Obj { Str path, text; std::map<Str, Str> *w; void add (const Str &k, const Str &json, const Str &leaf) { text += (text.empty () ? "" : ",") + ("\"" + k + "\":") + json; (*w)[path + "/" + k] = leaf; } };
  auto num = [&] (Obj &o, const char *k, double v) { if (choose (4) != 3) o.add (k, fmt ("%.17g", v), fmt ("%.17g", v)); };
  auto str = [&] (Obj &o, const char *k, const Str &v) { if (choose (4) != 3) o.add (k, qs (v), v); };
  auto yes = [&] (Obj &o, const char *k) { if (choose (2)) o.add (k, "true", "true"); };
  auto q = [&] () { return 0.25 * (1 + choose (100000)); };
  // durations are kept in units of 0.0001 seconds
  auto dur = [&] () { return choose (2) ? q () : (double)range (1, choose (2) ? 0xfffffff0LL : 20000000) / 10000.0; };
  std::set<Str> times;
  int nd = choose (3), nc = choose (3), ne = choose (3); size_t room = 0;
  for (int i = 0; i < nd; i++)
  {
    Obj o; o.w = &want; o.path = fmt ("/FDSN/Event/Detection/%d", i); bool mur = choose (2); o.add ("Type", qs (mur ? "MURDOCK" : "GENERIC"), mur ? "MURDOCK" : "GENERIC");
    num (o, "SignalAmplitude", q ()); num (o, "SignalPeriod", q ()); num (o, "BackgroundEstimate", q ()); if (choose (3)) { Str w = choose (2) ? "DILATATION" : "COMPRESSION"; o.add ("Wave", qs (w), w); } else if (!mur) want[o.path + "/Wave"] = "(none)";
    Str t = tm (false); o.add ("OnsetTime", qs (t), t); times.insert (o.path + "/OnsetTime");
    if (mur) { if (choose (2)) { Str a; for (int k = 0; k < 6; k++) { int v = k ? (int)choose (256) : 1 + (int)choose (255); a += fmt ("%s%d", k ? "," : "", v); want[o.path + fmt ("/MEDSNR/%d", k)] = fmt ("%d", v); } o.text += ",\"MEDSNR\":[" + a + "]"; } num (o, "MEDLookback", choose (256)); num (o, "MEDPickAlgorithm", choose (256)); }
    else if (choose (2)) { Str u = choose (2) ? "DECONVOLVED" : "COUNTS"; o.add ("Units", qs (u), u); }
    str (o, "Detector", word (24)); det += (i ? ",{" : "{") + o.text + "}"; room += 60;
  }
  for (int i = 0, at = 0; i < nc; i++, at++)
  {
    Obj o; o.w = &want; o.path = fmt ("/FDSN/Calibration/Sequence/%d", at); static const char *T[] = { "STEP", "SINE", "PSEUDORANDOM", "GENERIC", "ABORT" }; int ty = choose (5); o.add ("Type", qs (T[ty]), T[ty]);
    if (ty == 4) { Str t = tm (false); o.add ("EndTime", qs (t), t); times.insert (o.path + "/EndTime"); }
    else
    {
      Str t = tm (false); o.add ("BeginTime", qs (t), t); times.insert (o.path + "/BeginTime");
      if (ty == 0) { num (o, "Steps", choose (256)); yes (o, "StepFirstPulsePositive"); yes (o, "StepAlternateSign"); num (o, "StepBetween", dur ()); }
      if (choose (2)) { Str u = choose (2) ? "AUTOMATIC" : "MANUAL"; o.add ("Trigger", qs (u), u); } yes (o, "Continued"); num (o, "Duration", dur ()); num (o, "Amplitude", q ()); str (o, "InputChannel", word (3));
      if (ty == 1) { if (choose (2)) { static const char *A[] = { "PEAKTOPEAK", "ZEROTOPEAK", "RMS" }; Str u = A[choose (3)]; o.add ("AmplitudeRange", qs (u), u); } num (o, "SinePeriod", q ()); }
      if (ty == 2) { if (choose (2)) o.add ("AmplitudeRange", qs ("RANDOM"), "RANDOM"); str (o, "Noise", word (8)); }
      if (ty < 3) { num (o, "ReferenceAmplitude", 1 + choose (100000)); str (o, "Coupling", word (12)); str (o, "Rolloff", word (12)); }
    }
    // the end of a calibration is a blockette, and an entry, of its own
    if (ty < 4 && choose (3) == 2) { Str t = tm (false), at2 = fmt ("/FDSN/Calibration/Sequence/%d", ++at); o.text += ",\"EndTime\":" + qs (t); want[at2 + "/EndTime"] = t; want[at2 + "/Type"] = "ABORT"; times.insert (at2 + "/EndTime"); room += 16; }
    cal += (i ? ",{" : "{") + o.text + "}"; room += 64;
  }
  for (int i = 0; i < ne; i++)
  {
    Obj o; o.w = &want; o.path = fmt ("/FDSN/Time/Exception/%d", i); Str t = tm (true); o.add ("Time", qs (t), t); times.insert (o.path + "/Time");
    num (o, "VCOCorrection", 0.25 * choose (400)); num (o, "ReceptionQuality", choose (101)); num (o, "Count", 1 + choose (100000)); str (o, "Type", word (16)); str (o, "ClockStatus", word (60)); exc += (i ? ",{" : "{") + o.text + "}"; room += 200;
  }
  Obj fl; fl.w = &want; fl.path = "/FDSN/Flags"; for (const char *k : { "StationVolumeParityError", "LongRecordRead", "ShortRecordRead", "StartOfTimeSeries", "EndOfTimeSeries", "AmplifierSaturation", "DigitizerClipping", "Spikes", "Glitches", "MissingData", "TelemetrySyncError", "FilterCharging" }) if (choose (4) == 3) fl.add (k, "true", "true");
  Obj ev; ev.w = &want; ev.path = "/FDSN/Event"; for (const char *k : { "Begin", "End", "InProgress" }) if (choose (4) == 3) ev.add (k, "true", "true");
  Obj ti; ti.w = &want; ti.path = "/FDSN/Time"; if (choose (2)) num (ti, "Quality", choose (101)); if (choose (3) == 2) { int v = choose (2) ? 1 : -1; ti.add ("LeapSecond", fmt ("%d", v), fmt ("%d", v)); } if (choose (3) == 2) { double v = ((int)choose (200001) - 100000) / 10000.0; if (v != 0) ti.add ("Correction", fmt ("%.17g", v), fmt ("%.17g", v)); }
  auto part = [&] (Str a, const char *name, const Str &arr) { if (!arr.empty ()) a += (a.empty () ? "" : ",") + ("\"" + Str (name) + "\":[") + arr + "]"; return a; };
  std::vector<Str> top; Str x;
  if (!(x = part (ev.text, "Detection", det)).empty ()) top.push_back ("\"Event\":{" + x + "}");
  if (!(x = part (ti.text, "Exception", exc)).empty ()) top.push_back ("\"Time\":{" + x + "}");
  if (!cal.empty ()) top.push_back ("\"Calibration\":{\"Sequence\":[" + cal + "]}");
  if (!fl.text.empty ()) top.push_back ("\"Flags\":{" + fl.text + "}");
  if (ne && choose (2)) { Str m = word (32); top.push_back ("\"Clock\":{\"Model\":" + qs (m) + "}"); want["/FDSN/Clock/Model"] = m; }
  Rng g = bulk (); for (size_t i = top.size (); i > 1; i--) std::swap (top[i - 1], top[g.below (i)]);
  for (auto &s : top) J += (J.empty () ? "" : ",") + s; J = "{\"FDSN\":{" + J + "}}";
  nontrivial (); log ("%s", J.c_str ());
  RefRec t; t.fmt = 3; t.sid = sid_for (choose (8), &t); t.enc = 3; t.rate = 10; t.flags = choose (8); Samples s = gen_samples ('i', 1 + choose (300), choose (2) ? 3 : 8);
  MS3Record *m = msr3_init (NULL); strcpy (m->sid, t.sid.c_str ()); m->starttime = t0 + 123456000; m->samprate = 10; m->pubversion = 1 + choose (4); m->flags = t.flags; m->encoding = 3; m->sampletype = 'i'; m->samplecnt = m->numsamples = s.n (); Str b = s.bytes (); m->datasamples = (void *)ro_copy (b); m->formatversion = 2; m->reclen = 1024 << choose (3);
  m->extra = (char *)user_alloc (J.size () + 1); strcpy (m->extra, J.c_str ()); m->extralength = J.size ();
  s_out.clear (); int64_t ps = 0; int rc = msr3_pack (m, handler, &s_out, &ps, MSF_FLUSHDATA, 0); NEED (rc > 0 && rc == (int)s_out.size (), "pack:error", "packing fails with %d", rc);
  Samples got; got.type = 'i';
  for (auto &raw : s_out)
  {
    RefRec d; Str why; NEED (decode_rec (raw.data (), raw.size (), d, &why) == raw.size (), "pack:invalid", "a packed record is not valid: %s", why.c_str ()); append (got, d.s); NEED (d.flags == t.flags && d.pubver == m->pubversion && d.sid == t.sid, "pack:header", "header differs");
    const char *p = ro_copy (raw); MS3Record *w = NULL; NEED (msr3_parse (p, raw.size (), &w, MSF_UNPACKDATA, 0) == 0, "pack:unreadable", "a packed record is refused");
    std::map<Str, Str> l; NEED (flatten_json (w->extra ? w->extra : "", l), "pack:extra", "extra headers read are not JSON"); for (auto &e : l) if (e.second.size () > 1 && e.second[0] == '"') e.second = e.second.substr (1, e.second.size () - 2);
    for (auto &e : want)
    {
      if (e.second == "(none)") { NEED (!l.count (e.first), "pack:extra", "%s appears as %s", e.first.c_str (), l[e.first].c_str ()); continue; }
      auto it = l.find (e.first); NEED (it != l.end (), "pack:extra", "%s is lost", e.first.c_str ());
      bool ok = it->second == e.second; if (!ok && times.count (e.first)) ok = ms_timestr2nstime ((char *)it->second.c_str ()) == ms_timestr2nstime ((char *)e.second.c_str ());
      if (!ok && !times.count (e.first)) { char *z; double a = strtod (it->second.c_str (), &z), c = strtod (e.second.c_str (), NULL); ok = !*z && fabs (a - c) <= 1e-12 * fabs (c); }
      NEED (ok, "pack:extra", "%s is %s instead of %s", e.first.c_str (), it->second.c_str (), e.second.c_str ());
    }
    for (auto &e : l) if (e.first.find ("/Flags/") != Str::npos || e.first.find ("LeapSecond") != Str::npos) NEED (want.count (e.first), "pack:extra", "%s appears", e.first.c_str ());
    // and once more
    Str once = w->extra ? w->extra : ""; Got g0 = capture (w, 0);
    if (choose (2)) { std::vector<Str> keep; keep.swap (s_out); int64_t p2 = 0; w->formatversion = 2; w->encoding = 3; int r2 = msr3_pack (w, handler, &s_out, &p2, MSF_FLUSHDATA, 0); NEED (r2 == 1 && p2 == g0.num, "pack:again", "a record just read cannot be packed again: %d", r2); MS3Record *v = NULL; NEED (msr3_parse (s_out[0].data (), s_out[0].size (), &v, 0, 0) == 0, "pack:again", "unreadable"); std::map<Str, Str> l2; flatten_json (v->extra ? v->extra : "", l2); for (auto &e : l2) if (e.second.size () > 1 && e.second[0] == '"') e.second = e.second.substr (1, e.second.size () - 2); NEED (l2 == l, "pack:again", "extra headers differ after packing again: %s then %s", once.c_str (), v->extra ? v->extra : ""); msr3_free (&v); s_out.swap (keep); }
    msr3_free (&w); ro_free (p);
    if (!choose (2)) continue;
  }
  NEED (got.bytes () == s.bytes (), "pack:samples", "samples differ");
  // a record too short for its headers is refused, or leaves none out
  for (int z = choose (3); z > 0; z--)
  {
    m->reclen = 128 << choose (4); s_out.clear (); ps = 0; int r = msr3_pack (m, handler, &s_out, &ps, MSF_FLUSHDATA, 0); NEED (r < 0 || r == (int)s_out.size (), "pack:count", "%d records reported, %zu emitted", r, s_out.size ());
    for (auto &raw : s_out) { RefRec d; Str why; NEED (decode_rec (raw.data (), raw.size (), d, &why) == raw.size () && (int)raw.size () == m->reclen, "pack:invalid", "a packed record of %zu bytes is not valid: %s", raw.size (), why.c_str ()); }
    if (r < 0) probe ("no-room-for-headers");
  }
  m->datasamples = NULL; msr3_free (&m);
}
SCENARIO (C07, headers2) { headers2 (); }
SCENARIO (C21, headers2) { headers2 (); }
// what the format asked for cannot hold is refused: what is emitted is valid nevertheless, and counted
SCENARIO (C07, refused)
{
  sim_setup ();
  GenOpt o; o.legacy = false; o.nob1000 = false; RefRec r = gen_record (o); MS3Record *m = NULL; NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused"); if (r.s.type == 'i' && choose (3)) { static const int E[] = { 11, 10, 3, 1 }; m->encoding = E[choose (4)]; }
  bool v2 = choose (2), must = false, loose = false; Str said; m->formatversion = v2 ? 2 : 3; m->reclen = v2 ? 256 << choose (5) : 400 + choose (4000);
  auto extra = [&] (const Str &j) { if (m->extra) user_free (m->extra); m->extra = (char *)user_alloc (j.size () + 1); strcpy (m->extra, j.c_str ()); m->extralength = j.size (); };
  int how = choose (12); int head = 40 + r.sid.size () + m->extralength;
  switch (how)
  {
  case 0: { static const char *T[] = { "yesterday", "", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020,367,00:00:00", "2020-01-01T25:00:00Z", "12", "2020-01-01T00:00:00Z junk", "-1", "2020-01-01T00:00:00.1234567891234Z" }; static const char *P[] = { "{\"FDSN\":{\"Time\":{\"Exception\":[{\"Time\":\"%s\"}]}}}", "{\"FDSN\":{\"Event\":{\"Detection\":[{\"Type\":\"GENERIC\",\"OnsetTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Event\":{\"Detection\":[{\"Type\":\"MURDOCK\",\"OnsetTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"STEP\",\"BeginTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"SINE\",\"BeginTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"PSEUDORANDOM\",\"BeginTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"GENERIC\",\"BeginTime\":\"%s\"}]}}}", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"ABORT\",\"EndTime\":\"%s\"}]}}}" }; int t = choose (10); extra (fmt (P[choose (8)], T[t])); if (v2 && t < 7 && t != 6) must = true; if (v2) m->reclen = 1024; said = "a time that is none"; break; }
  case 1: m->reclen = head + choose (64); if (v2) m->reclen = choose (2) ? 64 : 128; must = !v2 && r.nsamp () && m->encoding >= 10 && m->reclen - head < 64; loose = true; said = "little room"; break;
  case 2: m->reclen = choose (head); must = !v2 || m->reclen < 128; said = "no room for the header"; break;
  case 3: { Str s; for (int i = 0; i < 30; i++) s += fmt ("%s{\"Time\":\"2020-01-01T00:00:00Z\",\"Type\":\"X\"}", i ? "," : ""); extra ("{\"FDSN\":{\"Time\":{\"Exception\":[" + s + "]}}}"); m->reclen = v2 ? 256 << choose (4) : 300 + choose (300); must = true; said = "too many exceptions for the record"; break; }
  case 4: { static const char *S[] = { "", "X", "FDSN:", "FDSN:TOOLONG_STA__B_H_Z", "FDSN:XX_STATIONX_00_B_H_Z", "FDSN:XX_STA_LOC_B_H_Z", "FDSN:XX_STA__BB_HH_ZZ", "FDSN:XX", "FDSN:A_B_C", "XFDSN:XX_STA__B_H_Z", "NOT:AN_FDSN_S_I_D" }; int k = choose (11); strcpy (m->sid, S[k]); said = "an identifier that does not fit"; must = v2; loose = !v2; break; }
  case 5: m->reclen = v2 ? (choose (2) ? 129 + choose (126) : choose (2) ? 1000 + 2 * choose (10) : 32 << choose (2)) : 1 + choose (40); must = !v2 || true; said = "a record length that is none"; break;
  case 6: { int was = m->encoding; static const int E[] = { 0, 1, 3, 4, 5, 10, 11, 2, 12, 14, 19, 30, 32, 77 }; m->encoding = E[choose (14)]; char want = m->encoding == 0 ? 't' : m->encoding == 4 ? 'f' : m->encoding == 5 ? 'd' : m->encoding == 1 || m->encoding == 3 || m->encoding == 10 || m->encoding == 11 ? 'i' : '?'; must = r.nsamp () && want != m->sampletype; loose = true; said = fmt ("encoding %d for %d", m->encoding, was); break; }
  case 7: m->samprate = choose (2) ? 40000.5 + choose (1000) : -(33000.25 + choose (1000)); must = v2; said = "a rate that does not fit"; loose = !v2; break;
  case 8: m->sampletype = "xX\0?"[choose (4)]; must = r.nsamp () > 0; said = "a sample type that is none"; break;
  case 11:
  { // differences at the limits of Steim-2
    said = "a difference at the limits of 30 bits"; loose = true; size_t n = r.s.i.size (); if (r.s.type != 'i' || n < 2) break; m->encoding = choose (4) == 3 ? 10 : 11; int64_t at = r.s.i[0] = (int64_t)choose (100000) - 50000; size_t w = 1 + choose (std::min<size_t> (n - 1, 40));
    for (size_t i = 1; i < n; i++) { static const int64_t D[] = { 536870912, 536870911, -536870912, -536870913, 536870913, 1073741824, -1073741824 }; at += i == w ? D[choose (7)] : choose (2) ? 0 : 1; r.s.i[i] = (int32_t)at; } memcpy (m->datasamples, r.s.i.data (), n * 4); break;
  }
  case 10: { static const int Y[] = { 1899, 2101, 1800, 1798, 2222 }; bool edge = choose (3) == 2; m->starttime = edge ? cal2ns (choose (2) ? 2100 : 1900, choose (2) ? 1 : 365, 23, 59, 59, 0) : cal2ns (Y[choose (5)], 1 + choose (365), choose (24), 0, 0, 0); if (m->starttime < 0 && !edge && choose (2)) m->starttime -= 1; must = v2 && !edge; said = "a year that is not recognized"; break; }
  default: { static const char *T[] = { "{\"FDSN\":", "nonsense", "{\"a\":1}}", "{a:1}", "{\"FDSN\":{\"Time\":{\"Exception\":[1,2,\"x\",null]}}}", "{\"FDSN\":{\"Event\":{\"Detection\":{\"Type\":1}}}}", "{\"FDSN\":[1]}", "[]", "1", "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":5,\"BeginTime\":7}]}}}" }; int k = choose (10); extra (T[k]); must = v2 && k < 4; loose = true; said = "extra headers that are none"; }
  }
  if (v2 && how != 10 && !year_for_v2 (r.start)) { must = true; said += " and a year that is not recognized"; }
  nontrivial (); s_out.clear (); s_bad = false; int64_t ps = 0; int len = m->reclen; Samples all = r.s; log ("%s as version %d of %d bytes, encoding %d: %s", describe (r).c_str (), v2 ? 2 : 3, len, m->encoding, said.c_str ()); fault ("unpackable");
  Str sam = m->numsamples > 0 ? Str ((char *)m->datasamples, m->numsamples * ms_samplesize (r.s.type)) : "", x0 = m->extralength ? Str (m->extra, m->extralength) : "";
  int rc = msr3_pack (m, handler, &s_out, &ps, MSF_FLUSHDATA | (v2 ? MSF_PACKVER2 : 0), 0); log ("%d records, %lld samples", rc, (long long)ps); Samples got; got.type = r.s.type; bool strange = how == 4 && !v2;
  for (auto &raw : s_out)
  {
    MS3Record *w = NULL; uint8_t ver = 0; const char *p = ro_copy (raw); int64_t d = ms3_detect (p, raw.size (), &ver); NEED (d == (int64_t)raw.size () && ver == (v2 ? 2 : 3), "pack:invalid", "%s: a record of %zu bytes is emitted and detected as %lld of version %d", said.c_str (), raw.size (), (long long)d, ver);
    NEED ((int)raw.size () <= std::max (len, 0), "pack:length", "%s: a record of %zu bytes for %d", said.c_str (), raw.size (), len); if (how == 9) { ro_free (p); continue; }
    int pc = msr3_parse (p, raw.size (), &w, MSF_UNPACKDATA | MSF_VALIDATECRC, 0); NEED (pc == 0, "pack:unreadable", "%s: an emitted record is refused with %s", said.c_str (), codename (pc)); if (!strange) { RefRec q; Str why; NEED (decode_rec (raw.data (), raw.size (), q, &why) == raw.size (), "pack:invalid", "%s: an emitted record is not valid: %s", said.c_str (), why.c_str ()); append (got, q.s); }
    msr3_free (&w); ro_free (p);
  }
  if (rc < 0) probe ("pack-refused"); else NEED (rc == (int)s_out.size (), "pack:count", "%s: %d records reported, %zu emitted", said.c_str (), rc, s_out.size ());
  NEED (rc < 0 || !must, "pack:accepted", "%s: packed into %d records", said.c_str (), rc);
  if (how != 9 && !strange && (how != 6 || s_out.empty () || got.n ())) { NEED (got.bytes () == slice (all, 0, got.n ()).bytes () || got.n () == 0, "pack:samples", "%s: the samples emitted are not the first ones", said.c_str ()); if (rc >= 0) NEED (got.n () == all.n () && ps == (int64_t)got.n (), "pack:left", "%s: %zu of %zu samples are emitted, %lld reported", said.c_str (), got.n (), all.n (), (long long)ps); }
  NEED ((sam.empty () || !memcmp (m->datasamples, sam.data (), sam.size ())) && (x0.empty () || !memcmp (m->extra, x0.data (), x0.size ())) && m->reclen == len, "pack:input", "the record structure is changed by packing"); (void)loose; msr3_free (&m);
}
// records with more samples than 16 bits count, and of the largest sizes
SCENARIO (C07, large)
{
  sim_setup (); nontrivial ();
  bool v2 = choose (2); static const int E[] = { 0, 11, 10, 1, 3, 4, 5 }; int enc = E[choose (v2 ? 4 : 7)]; char type = api_sampletype (enc); int sz = ensize (enc < 10 ? enc : 3);
  static const int L2[] = { 65536, 131072, 131072, 32768 }; int reclen = v2 ? L2[choose (4)] : 66000 + choose (choose (2) ? 10000 : 600000);
  size_t edge = choose (2) ? 65535 : 65536; size_t n = choose (2) ? edge + choose (3) : 60000 + choose (choose (2) ? 20000 : 200000); (void)sz;
  RefRec t; t.fmt = 3; t.sid = sid_for (choose (8), &t); t.pubver = 1 + choose (4); double rate = choose (2) ? 100 : 1;
  Samples all = gen_samples (type, n, enc == 1 ? 1 : choose (enc >= 10 ? 2 : 4)); if (enc >= 10 && choose (2)) for (size_t i = 0; i < n; i++) all.i[i] = (int)(i & 3);
  int64_t t0 = some_time (v2 ? 2 : 3, cal2ns (2023, 1 + choose (300), choose (24), 0, 0, 0));
  MS3Record *m = msr3_init (NULL); strcpy (m->sid, t.sid.c_str ()); m->pubversion = t.pubver; m->starttime = t0; m->samprate = rate; m->encoding = enc; m->reclen = reclen; m->numsamples = m->samplecnt = n; m->sampletype = type; Str b = all.bytes (); const char *sp = ro_copy (b); m->datasamples = (void *)sp;
  s_out.clear (); s_bad = false; int64_t ps = 0; int rc = msr3_pack (m, handler, &s_out, &ps, MSF_FLUSHDATA | (v2 ? MSF_PACKVER2 : 0), 0);
  log ("%zu samples, encoding %d, version %d, length %d: %d records", n, enc, v2 ? 2 : 3, reclen, rc);
  NEED (rc >= 0 || (v2 && reclen == 131072) || (v2 && reclen == 65536 && enc >= 10), "pack:error", "packing fails without reason");
  size_t e = 0;
  for (auto &raw : s_out)
  {
    RefRec q; Str why; size_t L = decode_rec (raw.data (), raw.size (), q, &why); NEED (L == raw.size (), "pack:invalid", "a packed record of %zu bytes is not valid: %s", raw.size (), why.c_str ());
    NEED ((int)L <= reclen && (!v2 || (int)L == reclen) && q.fmt == (v2 ? 2 : 3) && q.enc == enc, "pack:length", "packed record of %zu bytes, version %d, %d requested", L, q.fmt, reclen);
    NEED (q.nsamp () > 0 && e + q.nsamp () <= n && q.s.bytes () == slice (all, e, q.nsamp ()).bytes (), "pack:samples", "the record at sample %zu of %zu holds %zu samples that are not the next ones", e, n, (size_t)q.nsamp ());
    int64_t want = sample_time (t0, e, rate); NEED (llabs (q.start - want) <= (v2 ? 1000 : 2), "pack:time", "the record at sample %zu starts at %lld instead of %lld", e, (long long)q.start, (long long)want);
    MS3Record *w = NULL; const char *p = ro_copy (raw); int pc = msr3_parse (p, raw.size (), &w, MSF_UNPACKDATA | MSF_VALIDATECRC, 0); NEED (pc == 0, "pack:unreadable", "a packed record is refused with %s", codename (pc)); Str d = diff_got (capture (w, 0), q, 0, true, false); NEED (d.empty (), "pack:unreadable", "a packed record reads as: %s", d.c_str ());
    if (q.nsamp () > 65535) probe ("more-than-16-bits");
    // and packed again under another identifier
    if (!e || choose (4) == 3)
    {
      strcpy (w->sid, "FDSN:NEW_ST_LL_X_Y_Z"); std::vector<char> buf (40 + 64 + w->extralength + w->datalength + 64); int k = msr3_repack_mseed3 (w, buf.data (), buf.size (), 0);
      NEED (k > 0, "repack:error", "repacking fails"); RefRec x; NEED (decode_rec (buf.data (), k, x, &why) == (size_t)k, "repack:invalid", "the repacked record is not valid: %s", why.c_str ());
      NEED (x.fmt == 3 && x.sid == "FDSN:NEW_ST_LL_X_Y_Z" && x.start == q.start && x.nsamp () == q.nsamp () && x.s.bytes () == q.s.bytes () && x.enc == q.enc, "repack:samples", "the repacked record differs: %s", describe (x).c_str ());
    }
    e += q.nsamp (); msr3_free (&w); ro_free (p);
  }
  NEED (ps == (int64_t)e && (rc < 0 || (e == n && rc == (int)s_out.size ())), "pack:count", "%lld samples in %d records reported, %zu in %zu emitted of %zu", (long long)ps, rc, e, s_out.size (), n);
  m->datasamples = NULL; msr3_free (&m); ro_free (sp);
}
