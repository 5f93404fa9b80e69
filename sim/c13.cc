// C13: filters return exactly the matching records and never lose stream position
#include "scn.h"
using namespace sim;
static const int64_t OPEN = NSTUNSET;

// ---- the documented meaning of a pattern, by recursion on all splits -------------------
static bool glob (const char *s, const char *p)
{
  if (!*p) return !*s;
  if (*p == '*') { for (const char *q = s;; q++) { if (glob (q, p + 1)) return true; if (!*q) return false; } }
  if (!*s) return false;
  if (*p == '?') return glob (s + 1, p + 1);
  if (*p == '\\' && p[1]) return p[1] == *s && glob (s + 1, p + 2);
  if (*p == '[')
  {
    const char *q = p + 1; bool neg = *q == '^', in = false; if (neg) q++;
    for (bool first = true; *q && (*q != ']' || first); first = false)
    {
      if (q[1] == '-' && q[2] && q[2] != ']') { if ((*s >= *q && *s <= q[2]) || *s == q[2]) in = true; q += 3; }
      else { if (*q == *s) in = true; q++; }
    }
    if (!*q) return false;
    return in != neg && glob (s + 1, q + 1);
  }
  return *p == *s && glob (s + 1, p + 1);
}
// turn a text into a pattern that often matches it
static Str patternize (const Str &s, int weight)
{
  Str p;
  for (size_t i = 0; i < s.size (); i++)
  {
    char c = s[i];
    if (choose (100) < 100u - weight) { p += c; continue; }
    switch (choose (9))
    {
    case 0: p += '?'; break;
    case 1: p += '*'; i += choose (4) == 3 ? choose (s.size ()) : choose (5); break;
    case 2: p += fmt ("[%c]", c == ']' || c == '^' || c == '-' ? 'a' : c); break;
    case 3: { char lo = isupper (c) ? 'A' : islower (c) ? 'a' : '0', hi = isupper (c) ? 'Z' : islower (c) ? 'z' : '9'; if (isalnum (c)) { if (choose (2)) lo = c - (c > lo); if (choose (3) == 2) hi = c; } p += fmt ("[%c-%c]", lo, hi); break; }
    case 4: p += fmt ("[^%c%c]", choose (3) ? 'q' : isalnum (c) ? c : 'q', 'w'); break;
    case 5: p += '\\'; p += c; break;
    case 6: { char x = isalnum (c) ? c : 'z'; p += choose (2) ? fmt ("[x%cy]", x) : fmt ("[k%c0-9]", x); break; }
    case 7: p += (choose (2) ? "**" : "*?"); break;
    default: p += choose (3) ? c : (char)('A' + choose (26));
    }
  }
  return p;
}
static Str safe (Str p) { for (auto &c : p) if (isspace ((unsigned char)c)) c = '_'; return p; }

// ---- selections ---------------------------------------------------------------------------
struct Sel { Str pat; int ver = 0; int64_t ws = OPEN, we = OPEN; bool comp = false; Str net, sta, loc, chan; };
static bool wants (const std::vector<Sel> &v, const RefRec &r)
{
  for (auto &e : v)
  {
    if (!glob (r.sid.c_str (), e.pat.c_str ())) continue;
    if (e.ver && e.ver != r.pubver) continue;
    if (e.ws != OPEN && r.end () < e.ws) continue;
    if (e.we != OPEN && r.start > e.we) continue;
    return true;
  }
  return false;
}
static bool whole (double rate) { return rate == 0 || (rate > 0 ? fmod (1e9, rate) == 0 : true); }
// a time at, just before or after the start or end of a record
static int64_t edge (const RefRec &r)
{
  bool st = choose (2); int64_t t = st ? r.start : r.end (); int64_t by = st || whole (r.rate) ? 1 : 1000;
  if (choose (8) == 7)
  { // times that can be said shortly
    int y, doy, h, m, sec; uint32_t ns; ns2cal (t + (choose (2) ? 3600000000000LL : 0), y, doy, h, m, sec, ns); int k = choose (5);
    int64_t u = cal2ns (y, k == 4 ? 1 : doy, k >= 3 ? 0 : h, k >= 2 ? 0 : m, k >= 1 ? 0 : sec, 0); if (llabs (u - r.end ()) > 2000 && u != NSTERROR && u != NSTUNSET) return u; // the first moments of 1902 stand for no time
  }
  switch (choose (6)) { case 0: return st || whole (r.rate) ? t : t + 1000; case 1: return t - by; case 2: return t + by; case 3: return t - 1000000000LL * choose (100000); case 4: return t + 1000000000LL * choose (100000); default: return r.start + 86400000000000LL * ((int)choose (1000) - 500); }
}
static Sel gen_sel (const std::vector<RefRec> &recs)
{
  Sel e; const RefRec &r = pick (recs);
  switch (choose (6))
  {
  case 0: e.pat = "*"; break;
  case 1: e.pat = r.sid; break;
  case 2: case 3: e.pat = safe (patternize (r.sid, 4 + choose (30))); break;
  default:
  {
    e.comp = true; RefRec q = r; if (r.net.empty () && r.sta.empty ()) sid_for (choose (8), &q);
    auto code = [&] (const Str &c, bool loc) { switch (choose (5)) { case 0: return Str (); case 1: return Str ("*"); case 2: return c.empty () ? Str (loc ? "--" : "*") : c; case 3: return c.empty () ? Str (loc ? "--" : "?") : safe (patternize (c, 30)); default: return Str (c.size () + choose (2), '?'); } };
    e.net = code (q.net, false); e.sta = code (q.sta, false); e.loc = code (q.loc, true); e.chan = code (q.chan, false);
    for (Str *c : { &e.net, &e.sta, &e.loc, &e.chan }) if (c->size () >= 18) *c = "*";
    if (choose (8) == 7 && q.chan.size () == 3) e.chan = fmt ("%c_%c_%c", q.chan[0], q.chan[1], q.chan[2]);
    else if (choose (8) == 7 && q.chan.size () == 3) { e.chan = q.chan; e.chan[choose (3)] = choose (3) ? '*' : '?'; if (choose (3) == 2) e.chan[choose (3)] = '*'; }
    bool seed = e.chan.size () == 3; for (char c : e.chan) if (!(isalnum ((unsigned char)c) || c == '?' || c == '*')) seed = false;
    // three characters are taken for a SEED channel, one part each
    if (e.chan.size () == 3 && !seed) { e.chan = "*"; seed = false; }
    Str ch = e.chan.empty () ? "*" : seed ? fmt ("%c_%c_%c", e.chan[0], e.chan[1], e.chan[2]) : e.chan;
    e.pat = "FDSN:" + (e.net.empty () ? "*" : e.net) + "_" + (e.sta.empty () ? "*" : e.sta) + "_" + (e.loc.empty () ? "*" : e.loc == "--" ? "" : e.loc) + "_" + ch;
  }
  }
  if (e.pat.size () > 90) e.pat = "*", e.comp = false;
  if (choose (3) == 2) e.ver = choose (2) ? r.pubver : 1 + choose (4);
  if (choose (2)) { int64_t a = edge (r), b = edge (pick (recs)); if (a > b && choose (4)) std::swap (a, b); int w = choose (4); if (w != 1) e.ws = a; if (w != 2) e.we = b; if (w == 3 && choose (2)) e.we = e.ws; }
  return e;
}
static std::vector<Sel> gen_sels (const std::vector<RefRec> &recs)
{
  std::vector<Sel> v; int n = 1 + choose (5); for (int i = 0; i < n; i++) v.push_back (gen_sel (recs));
  if (choose (4) == 3) { Sel e = pick (v); if (choose (2)) e.ws = edge (pick (recs)); else e.ver = choose (5); v.push_back (e); } // same pattern again
  return v;
}
static Str timestr (int64_t t, bool epoch = false)
{
  int y, doy, h, m, s; uint32_t ns; ns2cal (t, y, doy, h, m, s, ns);
  static const int md[2][13] = { { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365 }, { 0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366 } };
  int leap = (y % 4 == 0 && y % 100) || y % 400 == 0, mo = 0; while (doy > md[leap][mo + 1]) mo++;
  Str f = ns ? fmt (".%09u", ns) : choose (3) == 2 ? ".0" : ""; while (f.size () > 2 && f.back () == '0' && choose (3)) f.pop_back ();
  if (epoch && t >= 0 && choose (5) == 4) return fmt ("%s%lld%s", choose (2) || t < 1000000000000000LL ? "+" : "", (long long)(t / 1000000000), f.c_str ());
  if (!ns && choose (2))
  { // what is left out is zero, the day the first
    int d = doy - md[leap][mo], lo = s ? 0 : m ? 1 : h ? 2 : doy > 1 || !epoch ? 3 : 4, cut = lo - (lo && choose (3) == 2 ? 1 : 0);
    switch (cut)
    {
    case 4: return fmt ("%04d", y);
    case 3: switch (choose (4)) { case 0: return fmt ("%04d-%02d-%02d", y, mo + 1, d); case 1: return fmt ("%04d/%d/%d", y, mo + 1, d); case 2: return fmt ("%04d,%d", y, doy); default: return fmt ("%04d-%03d", y, doy); }
    case 2: switch (choose (3)) { case 0: return fmt ("%04d-%02d-%02dT%02d", y, mo + 1, d, h); case 1: return fmt ("%04d,%03d,%02d", y, doy, h); default: return fmt ("%04d-%03dT%02d", y, doy, h); }
    case 1: switch (choose (3)) { case 0: return fmt ("%04d-%02d-%02dT%02d:%02d", y, mo + 1, d, h, m); case 1: return fmt ("%04d,%03d,%02d,%d", y, doy, h, m); default: return fmt ("%04d-%03dT%02d:%02d%s", y, doy, h, m, choose (2) ? "Z" : ""); }
    }
  }
  switch (choose (6))
  {
  case 4: return fmt ("%04d-%03dT%02d:%02d:%02d%s%s", y, doy, h, m, s, f.c_str (), choose (2) ? "Z" : "");
  case 0: return fmt ("%04d-%02d-%02dT%02d:%02d:%02d%s%s", y, mo + 1, doy - md[leap][mo], h, m, s, f.c_str (), choose (2) ? "Z" : "");
  case 1: return fmt ("%04d,%03d,%02d:%02d:%02d%s", y, doy, h, m, s, f.c_str ());
  case 2: if (f.size () && choose (2)) f[0] = choose (4) == 3 ? ':' : ','; return fmt ("%04d,%03d,%02d,%02d,%02d%s", y, doy, h, m, s, f.c_str ());
  case 3: return fmt ("%04d/%02d/%02dT%02d:%02d:%02d%s", y, mo + 1, doy - md[leap][mo], h, m, s, f.c_str ());
  default: return fmt ("%04d-%02d-%02dT%02d:%02d:%02d%s", y, mo + 1, doy - md[leap][mo], h, m, s, f.c_str ());
  }
}
static Str sp () { static const char *S[] = { " ", "  ", "\t", " \t  " }; return S[choose (4)]; }
// the entry as a line of a selections file
static bool line_of (const Sel &e, Str &l)
{
  if (e.ws == OPEN && e.we != OPEN) return false; // no layout has an end only
  if (!e.comp) { if (e.ver && e.we == OPEN) return false; l = e.pat; if (e.ws != OPEN) l += sp () + timestr (e.ws); if (e.we != OPEN) l += sp () + timestr (e.we); if (e.ver) l += sp () + fmt ("%d", e.ver); }
  else
  {
    auto c = [] (const Str &x) { return x.empty () ? Str ("*") : x; };
    l = c (e.net) + sp () + c (e.sta) + sp () + c (e.loc) + sp () + c (e.chan);
    if (e.ver || e.ws != OPEN || choose (3) == 2) l += sp () + (e.ver ? fmt ("%d", e.ver) : Str (choose (2) ? "0" : "*"));
    if (e.ws != OPEN) l += sp () + timestr (e.ws); if (e.we != OPEN) l += sp () + timestr (e.we);
  }
  return l.size () < 190;
}
static char *cs (const Str &s) { return s.empty () ? NULL : (char *)s.c_str (); }
static MS3Selections *make_sels (std::vector<Sel> &v)
{
  MS3Selections *s = NULL; bool usefile = choose (2); Str text; int n = 0;
  for (auto &e : v)
  {
    Str l; int rc = 0; bool line = usefile && line_of (e, l);
    log ("select %s version %d from %lld to %lld by %s", e.pat.c_str (), e.ver, (long long)e.ws, (long long)e.we, line ? "file" : e.comp ? "codes" : "call");
    if (line) { if (choose (4) == 3) text += choose (2) ? "# * 2000-01-01 " + Str (logsize (500), '*') + "\n" : sp () + "\n"; if (choose (4) == 3) text += sp (); text += l; if (choose (4) == 3) text += sp (); text += choose (3) == 2 ? "\r\n" : "\n"; n++; continue; }
    if (e.comp) rc = ms3_addselect_comp (&s, cs (e.net), cs (e.sta), cs (e.loc), cs (e.chan), e.ws, e.we, e.ver);
    else rc = ms3_addselect (&s, e.pat.c_str (), e.ws, e.we, e.ver);
    NEED (rc == 0, "filter:add", "adding selection %s fails", e.pat.c_str ());
  }
  if (n)
  {
    if (choose (3) == 2) text.pop_back (); if (text.back () == '\r') text.pop_back ();
    Source f = make_source (SRC_FILE, text, any_name ("select")); int rc;
    if (choose (4) == 3) { file ("<sel-in>").data = text; set_stdin ("<sel-in>"); rc = ms3_readselectionsfile (&s, "-"); set_stdin ("<no-input>"); } else rc = ms3_readselectionsfile (&s, f.name.c_str ());
    NEED (rc == n, "filter:file", "a selections file of %d entries gives %d", n, rc);
  }
  return s;
}

// records, some with a payload that cannot be decoded
static Stream spoilable (int maxrec, bool big, size_t *mx, std::vector<bool> &bad, bool crc)
{
  Stream s0 = mixed_stream (maxrec, big, true, mx), s; bad.clear ();
  for (auto &q : s0.recs)
  {
    RefRec r = q; bool b = false;
    if (choose (3) == 2 && r.fmt == 3 && (r.enc == 10 || r.enc == 11) && r.nsamp () > 4 && r.datalen >= 64)
    { // first frame's control word is zero: no differences
      for (int k = 0; k < 4; k++) r.raw[r.dataoff + k] = 0; uint32_t c; memset (&r.raw[28], 0, 4); c = crc32c_ref (r.raw.data (), r.raw.size ()); memcpy (&r.raw[28], &c, 4); b = true; fault ("bad-payload");
    }
    s.add (r); bad.push_back (b);
  }
  return s;
}
SCENARIO (C13, select)
{
  sim_setup ();
  size_t mx; std::vector<bool> bad; Stream s = spoilable (10, choose (4) == 3, &mx, bad, true); tune_buffer (mx);
  std::vector<Sel> v = gen_sels (s.recs);
  uint32_t fl = (choose (3) ? MSF_UNPACKDATA : 0) | (choose (3) == 2 ? MSF_VALIDATECRC : 0);
  Stream w; std::vector<int64_t> offs; Str bytes; bool junk = choose (4) == 3; if (junk) fl |= MSF_SKIPNOTDATA;
  std::vector<int64_t> at; for (size_t i = 0; i < s.recs.size (); i++) { bool vague = i && s.recs[i - 1].fmt == 2 && !s.recs[i - 1].b1000; if (junk && choose (3) == 2 && !vague) { Str j (choose (300), choose (2) ? ' ' : '\0'); bytes += j; } at.push_back (bytes.size ()); bytes += s.recs[i].raw; }
  std::vector<size_t> exp; int code = MS_ENDOFFILE; bool undec = false;
  for (size_t i = 0; i < s.recs.size (); i++) if (wants (v, s.recs[i])) { if (bad[i] && (fl & MSF_UNPACKDATA)) { undec = true; break; } exp.push_back (i); }
  if (exp.size () && exp.size () < s.recs.size ()) nontrivial ();
  MS3Selections *sel = make_sels (v);
  Source src = make_source ((SrcKind)choose (SRC_NKINDS), bytes, "in");
  ReadOut o = read_all (src, fl, sel);
  for (size_t i = 0; i < o.recs.size () && i < exp.size (); i++)
  {
    Str d = diff_got (o.recs[i], s.recs[exp[i]], at[exp[i]], (fl & MSF_UNPACKDATA) != 0); if (bad[exp[i]]) { NEED (o.recs[i].raw == s.recs[exp[i]].raw && o.recs[i].off == at[exp[i]], "filter:record", "record %zu is not record %zu of the stream", i, exp[i]); continue; }
    NEED (d.empty (), "filter:record", "record %zu returned is not the matching record %zu of the stream: %s", i, exp[i], d.c_str ());
  }
  NEED (o.recs.size () == exp.size (), "filter:count", "%zu records returned where %zu match", o.recs.size (), exp.size ());
  if (undec) NEED (o.code != MS_ENDOFFILE && o.code != MS_NOERROR, "filter:code", "a matching record that cannot be decoded ends the reading with %s", codename (o.code));
  else NEED (o.code == code, "filter:code", "reading ends with %s instead of %s", codename (o.code), codename (code));
  // matching single records answers the same
  for (auto &r : s.recs)
  {
    const MS3SelectTime *t = NULL; const MS3Selections *m = ms3_matchselect (sel, r.sid.c_str (), r.start, r.end (), r.pubver, choose (2) ? &t : NULL);
    NEED ((m != NULL) == wants (v, r), "filter:match", "matching %s version %d gives %s", r.sid.c_str (), r.pubver, m ? "an entry" : "none");
    if (m) NEED (glob (r.sid.c_str (), m->sidpattern) && (!m->pubversion || m->pubversion == r.pubver), "filter:match", "the entry found for %s is %s version %d", r.sid.c_str (), m->sidpattern, m->pubversion);
    if (t) NEED ((t->starttime == OPEN || r.end () >= t->starttime) && (t->endtime == OPEN || r.start <= t->endtime), "filter:match", "the window found does not match the record");
  }
  ms3_freeselections (sel);
}
// trace lists through a filter are those of the matching records alone
SCENARIO (C13, tracelist)
{
  sim_setup ();
  size_t mx; std::vector<bool> bad; Stream s = spoilable (14, false, &mx, bad, true); tune_buffer (mx);
  if (choose (2)) { RefRec t = s.recs[0]; if (t.nsamp () > 2) { size_t k = 1 + choose (t.nsamp () - 1); RefRec a = make_piece (t, t.start, slice (t.s, 0, k)), b = make_piece (t, sample_time (t.start, k, t.rate), slice (t.s, k, t.nsamp () - k)); if (build (a) && build (b) && a.raw.size () + 192 <= mx && b.raw.size () + 192 <= mx && (a.fmt == 3 || a.b1000)) { Stream n; std::vector<bool> nb; for (size_t i = 0; i < s.recs.size (); i++) { if (i == 0) { if (s.recs[0].fmt == 2 && !s.recs[0].b1000) { n.add (s.recs[0]); nb.push_back (bad[0]); continue; } n.add (a); nb.push_back (false); n.add (b); nb.push_back (false); } else { n.add (s.recs[i]); nb.push_back (bad[i]); } } s = n; bad = nb; } } }
  std::vector<Sel> v = gen_sels (s.recs); int how = choose (3); // file, time window, buffer
  if (how == 1) { Sel e; e.pat = "*"; e.ws = edge (pick (s.recs)); e.we = edge (pick (s.recs)); if (choose (4) == 3) e.ws = OPEN; else if (choose (4) == 3) e.we = OPEN; v = { e }; }
  Stream w; std::vector<int64_t> offs; bool undec = false;
  uint32_t fl = (choose (2) ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_RECORDLIST : 0); int split = choose (2);
  for (size_t i = 0; i < s.recs.size (); i++) if (wants (v, s.recs[i])) { if (bad[i] && (fl & MSF_UNPACKDATA)) undec = true; w.add (s.recs[i]); offs.push_back (s.offs[i]); }
  if (undec) { probe ("undecodable-matches"); return; }
  MS3Selections *sel = how == 1 ? NULL : make_sels (v);
  MS3TraceList *l = NULL, *e = NULL; int64_t rc; Source src;
  if (how == 2) { const char *p = ro_copy (s.bytes); rc = mstl3_readbuffer_selection (&l, p, s.bytes.size (), split, fl | MSF_ATENDOFFILE, NULL, sel, 0); NEED (rc == (int64_t)w.recs.size (), "filter:list", "%lld records added from a buffer where %zu match", (long long)rc, w.recs.size ()); if (!(fl & MSF_RECORDLIST)) ro_free (p); }
  else
  {
    src = make_source (choose (4) == 3 ? SRC_URL : SRC_FILE, s.bytes, "in");
    rc = how == 1 ? ms3_readtracelist_timewin (&l, src.path.c_str (), NULL, v[0].ws, v[0].we, split, fl, 0) : ms3_readtracelist_selection (&l, src.path.c_str (), NULL, sel, split, fl, 0);
    NEED (rc == MS_NOERROR, "filter:list", "reading a list ends with %lld", (long long)rc);
  }
  nontrivial ();
  log ("%zu of %zu records match", w.recs.size (), s.recs.size ());
  e = mstl3_init (NULL);
  MS3Record *m = NULL; for (auto &r : w.recs) { NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, fl & MSF_UNPACKDATA, 0) == 0 || (r.fmt == 2 && !r.b1000 && msr3_parse (r.raw.data (), r.raw.size (), &m, (fl & MSF_UNPACKDATA) | MSF_ATENDOFFILE, 0) == 0), "filter:parse", "a record does not parse"); NEED (mstl3_addmsr (e, m, split, 1, 0, NULL), "filter:parse", "a record is not added"); }
  msr3_free (&m);
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) hash (g->datasamples, g->numsamples * (g->numsamples ? ms_samplesize (g->sampletype) : 0));
  Str fi = fullinfo (l); for (size_t p; (p = fi.find (" records ")) != Str::npos;) { size_t q = fi.find (';', p); fi.erase (p, q - p); }
  NEED (fi == fullinfo (e), "filter:list", "the list read through a filter differs from the list of the %zu matching records", w.recs.size ());
  check_list (l, split, "after filtering");
  if (fl & MSF_RECORDLIST)
  {
    std::multiset<int64_t> want (offs.begin (), offs.end ()), got;
    for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) if (g->recordlist) for (MS3RecordPtr *p = g->recordlist->first; p; p = p->next) got.insert (how == 2 ? (int64_t)0 : p->fileoffset);
    if (how == 2) NEED (got.size () == want.size (), "filter:offset", "%zu record list entries where %zu records match", got.size (), want.size ()); else NEED (got == want, "filter:offset", "the record lists do not hold the offsets of the matching records");
  }
  mstl3_free (&l, 0); mstl3_free (&e, 0); if (sel) ms3_freeselections (sel);
}
// patterns
SCENARIO (C13, glob)
{
  sim_setup (0); nontrivial ();
  for (int k = 0; k < 30; k++)
  {
    Str s, p; static const char A[] = "ABab_:0*?[\\-"; int small = choose (2);
    if (choose (3)) { s = sid_for (choose (8)); } else { int n = choose (4) == 3 ? choose (60) : choose (12); for (int i = 0; i < n; i++) s += small ? "AB_"[choose (3)] : A[choose (12)]; }
    p = patternize (s, 10 + choose (60)); if (p.size () > 90) continue;
    if (choose (4) == 3 && s.size () > 2) s.resize (choose (s.size ())); else if (choose (4) == 3) s += s.substr (0, choose (4)); else if (choose (4) == 3 && s.size ()) s[choose (s.size ())] = 'A' + choose (26);
    // unfinished sets and ranges open to one side are not defined
    MS3Selections *sel = NULL; NEED (ms3_addselect (&sel, p.c_str (), OPEN, OPEN, 0) == 0, "filter:add", "adding selection %s fails", p.c_str ());
    bool got = ms3_matchselect (sel, s.c_str (), 0, 0, 0, NULL) != NULL, want = glob (s.c_str (), p.c_str ()); log ("'%s' against '%s': %d", s.c_str (), p.c_str (), got);
    NEED (got == want, "filter:glob", "'%s' is said to %smatch '%s'", s.c_str (), got ? "" : "not ", p.c_str ());
    ms3_freeselections (sel);
  }
}
// the program's own filters
SCENARIO (C13, msi)
{
  sim_setup ();
  int n = 1 + choose (3); size_t mx = 64; std::vector<Stream> st; std::vector<RefRec> all; std::vector<Str> args;
  for (int i = 0; i < n; i++) { size_t m; st.push_back (mixed_stream (6, false, false, &m)); mx = std::max (mx, m); for (auto &r : st[i].recs) all.push_back (r); } tune_buffer (mx);
  int64_t ts = OPEN, te = OPEN; Str ma, re; int64_t lim = -1;
  if (choose (3) == 2) { ts = edge (pick (all)); args.push_back ("-ts"); args.push_back (timestr (ts, true)); } if (choose (3) == 2) { te = edge (pick (all)); args.push_back ("-te"); args.push_back (timestr (te, true)); }
  auto part = [&] { Str q = pick (all).sid; if (q.substr (0, 5) == "FDSN:") q = q.substr (5); size_t a = choose (q.size ()), l = 1 + choose (q.size () - a); return choose (3) ? patternize (q.substr (a, l), 15) : q; };
  if (choose (3) == 2) { ma = part (); if (ma.size ()) { args.push_back ("-m"); args.push_back (ma); } } if (choose (3) == 2) { re = part (); if (re.size ()) { args.push_back ("-r"); args.push_back (re); } }
  if (choose (3) == 2) { lim = choose (3) ? 1 + choose (all.size () + 2) : 1; args.push_back ("-n"); args.push_back (fmt ("%d", (int)lim)); }
  if ((ma.size () && (ma[0] == '@' || ma[0] == '-')) || (re.size () && (re[0] == '@' || re[0] == '-'))) return;
  if (choose (3) == 2) args.push_back ("-vvv"); args.push_back ("-s"); args.push_back ("-o"); args.push_back ("copy"); bool tr = choose (2); args.push_back (tr ? "-T" : "-p");
  for (int i = 0; i < n; i++) { Source s = make_source (choose (4) == 3 ? SRC_URL : SRC_FILE, st[i].bytes, fmt ("in%d", i)); args.push_back (s.path); }
  Str want; int64_t nr = 0, ns = 0;
  for (auto &r : all)
  {
    if (lim >= 0 && nr >= lim) break; // the limit is reached
    if (ts != OPEN && r.end () < ts) continue; if (te != OPEN && r.start > te) continue;
    if (ma.size () && !glob (r.sid.c_str (), ("*" + ma + "*").c_str ())) continue; if (re.size () && glob (r.sid.c_str (), ("*" + re + "*").c_str ())) continue;
    want += r.raw; nr++; ns += r.nsamp ();
  }
  Str cl; for (auto &a : args) cl += " " + a; log ("msi%s", cl.c_str ()); if (nr && nr < (int64_t)all.size ()) nontrivial ();
  MsiResult r = run_msi (args);
  NEED (r.status == 0, "filter:msi", "msi%s ends with %d: %s", cl.c_str (), r.status, r.err.c_str ());
  NEED (file ("copy").data == want, "filter:msi", "msi%s copies %zu bytes where the %lld matching records have %zu (or others)", cl.c_str (), file ("copy").data.size (), (long long)nr, want.size ());
  Str sum = fmt ("Records: %lld, Samples: %lld\n", (long long)nr, (long long)ns); NEED (r.out.find (sum) != Str::npos, "filter:msi", "msi%s does not print '%s'", cl.c_str (), sum.c_str ());
}
