// Helpers shared by the scenarios of several properties
#include "scn.h"
using namespace sim;

bool v2hdr (const char *p)
{
  for (int i = 0; i < 6; i++) if (!(isdigit ((uint8_t)p[i]) || p[i] == ' ' || !p[i])) return false;
  return strchr ("DRQM", p[6]) && p[6] && (p[7] == ' ' || !p[7]) && (uint8_t)p[24] <= 23 && (uint8_t)p[25] <= 59 && (uint8_t)p[26] <= 60;
}
// a mixed stream, including v2 records without blockette 1000 where their length is determined by what follows
Stream mixed_stream (int maxrec, bool big, bool nob1000, size_t *longest)
{
  Stream s; int n = 1 + choose (maxrec); size_t mx = 64;
  bool mustv2 = false;
  for (int i = 0; i < n; i++)
  {
    GenOpt o; o.nob1000 = nob1000; o.sidpool = 8;
    if (mustv2) o.v3 = false;
    if (big && choose (6) == 5) { o.max_samples = 40000; }
    RefRec r = gen_record (o);
    if (r.fmt == 2 && !r.b1000)
    {
      bool bad = false;
      for (size_t k = 64; k + 64 <= r.raw.size (); k += 64) if (v2hdr (r.raw.data () + k)) bad = true;
      if (bad) continue;
      mustv2 = true; mx = std::max (mx, r.raw.size () + 192);
      probe ("v2-without-b1000");
    }
    else mustv2 = false;
    mx = std::max (mx, r.raw.size () + (r.fmt == 2 && r.ev.size () ? 64 : 0)); // while its B1000 is not there 64 bytes more are wanted
    s.add (r);
  }
  if (s.recs.empty ()) { GenOpt o; o.v2 = false; s.add (gen_record (o)); mx = std::max (mx, s.recs[0].raw.size ()); }
  *longest = mx;
  return s;
}
void expect_exact (const ReadOut &o, const Stream &s, size_t from, size_t to, bool unp, const char *what, bool checkoff)
{
  for (size_t i = from; i < to; i++)
  {
    size_t k = i - from;
    if (k >= o.recs.size ()) violate ("stream:missing", "%s: record %zu of %zu is missing, reading ended with %s; record: %s at %lld", what, k, to - from, codename (o.code), describe (s.recs[i]).c_str (), (long long)s.offs[i]);
    Str d = diff_got (o.recs[k], s.recs[i], s.offs[i], unp, checkoff);
    if (!d.empty ()) violate (("stream:differs:" + d.substr (0, d.find_first_of (" '"))).c_str (), "%s: record %zu (%s at %lld): %s", what, k, describe (s.recs[i]).c_str (), (long long)s.offs[i], d.c_str ());
  }
  if (o.recs.size () > to - from) violate ("stream:extra", "%s: %zu records returned instead of %zu; extra: %s", what, o.recs.size (), to - from, describe (o.recs[to - from]).c_str ());
}

bool has_lookalike (const Str &b, const std::vector<int64_t> &starts)
{
  std::set<int64_t> st (starts.begin (), starts.end ());
  for (size_t i = 0; i + 40 <= b.size (); i++)
  {
    if (st.count (i)) continue;
    if (b[i] == 'M' && b[i + 1] == 'S' && b[i + 2] == 3) return true;
    if (i + 48 <= b.size () && v2hdr (b.data () + i)) return true;
  }
  return false;
}
size_t safe_cut (const RefRec &r, size_t cut)
{
  size_t L = r.raw.size ();
  if (cut >= L) cut = L - 1;
  if (cut < 1) cut = 1;
  if (r.fmt == 2 && cut >= 48 && cut < 128) cut = (cut & 1) ? 47 : 39;
  if (r.fmt == 2 && !(cut & (cut - 1)) && cut >= 48)
  { // at the end of the data what has a header, no blockette 1000 and a power of two as its length is taken as a record
    auto u2 = [&] (size_t p) { return p + 2 <= cut ? (r.be ? (uint8_t)r.raw[p] << 8 | (uint8_t)r.raw[p + 1] : (uint8_t)r.raw[p + 1] << 8 | (uint8_t)r.raw[p]) : 0; };
    bool in = false; for (size_t b = u2 (46), n = 0; b && b + 8 <= cut && n < 100; b = u2 (b + 2), n++) if (u2 (b) == 1000) in = true;
    if (!in) cut--;
  }
  return cut;
}
void check_list (const MS3TraceList *l, bool split, const char *what, bool packed)
{
  uint32_t n = 0; const MS3TraceID *prev = NULL;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
  {
    n++;
    NEED (n <= 100000, "list:links", "%s: the identifiers do not end", what);
    if (prev)
    {
      int c = strcmp (prev->sid, id->sid);
      NEED (c < 0 || (c == 0 && split && prev->pubversion < id->pubversion), "list:id-order", "%s: %s (version %d) is listed before %s (version %d)", what, prev->sid, prev->pubversion, id->sid, id->pubversion);
    }
    MS3TraceID *f = mstl3_findID ((MS3TraceList *)l, id->sid, split ? id->pubversion : 0, NULL);
    NEED (f == id || (f && !id->pubversion && !strcmp (f->sid, id->sid)), "list:find", "%s: %s (version %d) is listed but looking it up gives %s", what, id->sid, id->pubversion, f ? "another entry" : "nothing");
    uint32_t k = 0; MS3TraceSeg *p = NULL; int64_t lo = INT64_MAX, hi = INT64_MIN;
    for (MS3TraceSeg *g = id->first; g; p = g, g = g->next)
    {
      NEED (++k <= 100000, "list:links", "%s: the segments of %s do not end", what, id->sid);
      NEED (g->prev == p, "list:links", "%s: segment %u of %s does not point back to the one before", what, k, id->sid);
      if (p && !packed) NEED (p->starttime < g->starttime || (p->starttime == g->starttime && p->endtime >= g->endtime), "list:seg-order", "%s: segments %u and %u of %s are not in time order", what, k - 1, k, id->sid);
      lo = std::min<int64_t> (lo, g->starttime); hi = std::max<int64_t> (hi, g->endtime);
      NEED (packed || g->endtime >= g->starttime, "list:seg-time", "%s: a segment of %s ends before it starts: %lld..%lld, %lld samples, rate %g", what, id->sid, (long long)g->starttime, (long long)g->endtime, (long long)g->samplecnt, g->samprate);
      NEED (g->samplecnt >= 0 && g->numsamples >= 0, "list:seg-count", "%s: negative count in %s", what, id->sid);
      if (g->numsamples) { NEED (g->datasamples, "list:seg-data", "%s: %lld samples of %s without a buffer", what, (long long)g->numsamples, id->sid); NEED (g->datasize >= (uint64_t)g->numsamples * ms_samplesize (g->sampletype), "list:seg-data", "%s: buffer of %s is smaller than its samples", what, id->sid); }
      if (g->recordlist)
      {
        uint64_t c = 0; MS3RecordPtr *lastp = NULL; for (MS3RecordPtr *q = g->recordlist->first; q; q = q->next) { NEED (++c <= 1000000, "list:links", "%s: a record list does not end", what); lastp = q; }
        NEED (c == g->recordlist->recordcnt && lastp == g->recordlist->last, "list:record-count", "%s: record list of %s says %llu, has %llu", what, id->sid, (unsigned long long)g->recordlist->recordcnt, (unsigned long long)c);
      }
    }
    NEED (p == id->last, "list:links", "%s: last segment of %s is not the last of the list", what, id->sid);
    NEED (k == id->numsegments, "list:seg-count", "%s: %s has %u segments, counts %u", what, id->sid, k, id->numsegments);
    if (k && !packed) NEED (lo == id->earliest && hi == id->latest, "list:coverage", "%s: %s covers %lld..%lld, its segments %lld..%lld", what, id->sid, (long long)id->earliest, (long long)id->latest, (long long)lo, (long long)hi);
    prev = id;
  }
  NEED (n == l->numtraceids, "list:id-count", "%s: %u identifiers, counted %u", what, n, l->numtraceids);
  // higher levels of the skip list are sub-sequences of the lowest
  for (int lev = 1; lev < MSTRACEID_SKIPLIST_HEIGHT; lev++)
  {
    MS3TraceID *low = l->traces.next[0]; uint32_t k = 0;
    for (MS3TraceID *id = l->traces.next[lev]; id; id = id->next[lev]) { NEED (++k <= n, "list:links", "%s: level %d does not end", what, lev); while (low && low != id) low = low->next[0]; NEED (low, "list:links", "%s: level %d lists an identifier that is not in order", what, lev); }
  }
}
static double s_tt, s_tr;
static double tol_time (const MS3Record *) { return s_tt; }
static double tol_rate (const MS3Record *) { return s_tr; }
const MS3Tolerance *Tol::get ()
{
  static MS3Tolerance t;
  if (!have) return NULL;
  s_tt = this->t; s_tr = r; t.time = time ? tol_time : NULL; t.samprate = rate ? tol_rate : NULL;
  return &t;
}
std::vector<size_t> permutation (size_t n)
{
  std::vector<size_t> o (n); for (size_t i = 0; i < n; i++) o[i] = i;
  switch (choose (4))
  {
  case 0: break;
  case 1: std::reverse (o.begin (), o.end ()); break;
  default: for (size_t i = n; i > 1; i--) std::swap (o[i - 1], o[i - 1 - choose (i)]);
  }
  return o;
}
void deliver (MS3TraceList **l, const std::vector<RefRec> &recs, const std::vector<size_t> &order, int way, bool unp, bool rl, bool split, bool heal, Tol &tol)
{
  const MS3Tolerance *t = tol.get (); uint32_t fl = (unp ? MSF_UNPACKDATA : 0) | (rl ? MSF_RECORDLIST : 0);
  if (!*l) { *l = mstl3_init (NULL); NEED (*l, "deliver:init", "no trace list"); }
  size_t i = 0; int part = 0; MS3Record *m = NULL;
  while (i < order.size ())
  {
    if (way == 0)
    {
      const RefRec &r = recs[order[i]];
      const char *p = ro_copy (r.raw); int rc = msr3_parse (p, r.raw.size (), &m, unp ? MSF_UNPACKDATA : 0, 0);
      NEED (rc == 0, "deliver:parse", "record refused with %s: %s", codename (rc), describe (r).c_str ());
      MS3RecordPtr *rp = NULL;
      MS3TraceSeg *g = rl ? mstl3_addmsr_recordptr (*l, m, &rp, split, heal, 0, t) : mstl3_addmsr (*l, m, split, heal, 0, t);
      NEED (g, "deliver:refused", "record not taken: %s", describe (r).c_str ());
      if (rl) { NEED (rp, "deliver:recordptr", "no record pointer"); rp->prvtptr = (void *)(intptr_t)(order[i] + 1); }
      i++;
      continue;
    }
    size_t n = 1 + choose (order.size () - i); Str b; for (size_t k = 0; k < n; k++) b += recs[order[i + k]].raw;
    if (way == 1)
    {
      const char *p = ro_copy (b); int64_t c = mstl3_readbuffer (l, p, b.size (), split, fl, t, 0);
      NEED (c == (int64_t)n, "deliver:count", "reading a buffer of %zu records returns %lld", n, (long long)c);
    }
    else
    {
      Source s = make_source (choose (4) == 3 ? SRC_URL : SRC_FILE, b, fmt ("part%d", part++));
      char *path = (char *)user_alloc (s.path.size () + 1); strcpy (path, s.path.c_str ()); // record lists keep a pointer to the name
      int rc = ms3_readtracelist (l, path, t, split, fl, 0);
      NEED (rc == MS_NOERROR, "deliver:read", "reading %zu records into the list returns %s", n, codename (rc));
    }
    i += n;
  }
  msr3_free (&m);
}
static bool similar (double a, double b, const Tol &t)
{
  if (t.have && t.rate) return fabs (a - b) <= t.r;
  return fabs (1.0 - a / b) < 0.0001;
}
void build_case (std::vector<RefRec> &recs, Want &want, std::map<Str, int> &maxver, Tol &tol, bool split, int nchan, int maxrec, bool plain)
{
  static const double R[] = { 1, 10, 20, 40, 100, 200, 0.1, 50, -10, 33.333333, 8 };
  std::set<int> used; bool wasinside = false;
  for (int c = 0; c < nchan; c++)
  {
    RefRec t; t.fmt = choose (3) == 2 ? 2 : 3; int k = choose (40); while (used.count (k)) k = (k + 1) % 40; used.insert (k);
    t.sid = sid_for (k, &t);
    double rate; do rate = R[choose (11)]; while ((plain && rate == 33.333333) || (tol.have && tol.time && (1.0 / (rate < 0 ? -1 / rate : rate)) * 10 < tol.t));
    static const int encs[] = { 3, 11, 10, 4, 5, 1 }; t.enc = encs[choose (6)];
    t.rate = rate;
    if (t.fmt == 2) { if (rate == 33.333333) t.fmt = 3; else { set_rate2 (t, rate); t.be = choose (2); } }
    double base = t.rate, hz = t.hz ();
    // another rate, clearly within or clearly beyond what counts as the same
    double other = base; bool haveother = t.fmt == 3 && base > 0 && !plain && choose (3) == 2;
    if (haveother) { double d = tol.have && tol.rate ? tol.r : hz * 1e-4; other = base + d * (choose (2) ? 0.5 : 1.6) * (choose (2) ? 1 : -1); if (other <= 0) { other = base; haveother = false; } else if (d == 0) { haveother = false; other = base; } if (fabs (other - base) > 0.2 * hz) { other = base; haveother = false; } }
    // with a time tolerance smaller than the difference of the periods it matters whose period is meant
    if (haveother && tol.have && tol.time && 1e9 * tol.t < 2.0 * fabs (1e9 / other - 1e9 / hz) + 2) { other = base; haveother = false; }
    int nver = choose (3) == 2 ? 2 : 1; int v0 = 1 + choose (3), vs = 1; if (t.fmt == 3 && choose (6) == 5) { static const int V[] = { 126, 127, 128, 200, 251, 4 }; v0 = V[choose (6)]; if (v0 < 200 && choose (2)) vs = v0 == 4 ? 248 : 50 + choose (77); probe ("high-version"); }
    for (int v = 0; v < nver; v++)
    {
      t.pubver = v0 + v * vs;
      if (v && !split) break; // several versions in one timeline are made below
      int m = 1 + choose (maxrec); int64_t at = some_time (t.fmt, cal2ns (2020, 1 + choose (100), choose (24), 0, 0, 0)) + (int64_t)choose (1000) * 1000000; Seg cur; bool open = false; double prevrate = 0; int64_t prevend = 0; wasinside = false;
      auto key = std::make_pair (t.sid, split ? t.pubver : 0);
      for (int i = 0; i < m; i++)
      {
        RefRec x = t; if (!split && choose (3) == 2) x.pubver = v0 > 4 ? v0 + choose (4) : 1 + choose (4);
        x.rate = haveother && choose (3) == 2 ? other : base;
        int64_t p = x.period (), tl = tol.have && tol.time ? (int64_t)(1e9 * tol.t) : (int64_t)(0.5 * p);
        size_t nmin = 1 + (4 * tl + p - 1) / p;
        size_t more = 0; bool inside = false;
        if (i)
        {
          bool same = x.rate == prevrate; int64_t d = 0; bool exact = base != 33.333333 && t.fmt == 3;
          switch (choose (8))
          {
          case 0: case 1: case 2: d = 0; break;
          case 3: d = same ? std::max<int64_t> ((int64_t)(tl * 0.9), 0) : 0; break;
          case 4: d = same ? -std::min<int64_t> ((int64_t)(tl * 0.9), p * 9 / 10) : 0; break;
          case 5: d = same && exact ? tl : 0; if (choose (2) && tl <= p * 9 / 10) d = -d; break;
          case 6: d = same && exact ? tl + 1 : tl * 2 + p; break;
          default: d = tl * 2 + p + (int64_t)choose (1000000) * (plain && choose (2) ? choose (2) ? 10000000 : 300000000 : 1000000);
          }
          if (plain && choose (5) == 4) { int64_t k = (2 * tl + 2 * p) / p + 1 + choose (12); bool clear = k * p + p + 2 * tl < prevend - cur.start; for (auto &w : recs) if (w.sid == t.sid && llabs (prevend + p - k * p - w.end ()) < 4 * tl + 4 * p) clear = false; if (clear) { d = -k * p; more = k + (4 * tl + 4 * p) / p; } 
            // wholly within the one before
            int64_t n = nmin + choose (4), e = prevend + p - k * p + (n - 1) * p; if (clear && choose (2) && e + 2 * tl + 2 * p < prevend) { for (auto &w : recs) if (w.sid == t.sid && llabs (e + p - w.start) < 4 * tl + 4 * p) clear = false; if (clear) { inside = true; nmin = n; more = 0; } } }
          if (wasinside) { d = tl * 2 + p + (int64_t)choose (1000) * 1000000; inside = false; more = 0; }
          if (t.fmt == 2) d = d / 1000 * 1000;
          at = prevend + p + d;
          if (t.fmt == 2) { at = at / 1000 * 1000; }
          int64_t gap = at - prevend - p;
          bool join = gap <= tl && gap >= -tl && similar (x.hz (), prevrate < 0 ? -1 / prevrate : prevrate, tol);
          if (!join) { want[key].push_back (cur); cur = Seg (); open = false; }
        }
        Samples sm = gen_samples (api_sampletype (x.enc), nmin + more + (inside ? 0 : logsize (40)), x.enc == 1 ? choose (2) : choose (5));
        RefRec r = make_piece (x, at, sm); at = r.start;
        if (!open) { cur.start = r.start; cur.type = r.s.type; open = true; }
        cur.end = r.end (); cur.cnt += r.nsamp (); cur.bytes += r.s.bytes (); cur.recs.push_back (recs.size ()); cur.rates.insert (r.hz ()); if (cur.recs.size () == 1) cur.rate = r.hz ();
        maxver[t.sid] = std::max (maxver[t.sid], r.pubver);
        prevend = inside ? std::max (prevend, r.end ()) : r.end (); wasinside = inside; if (inside) probe ("segment-inside"); prevrate = x.rate; recs.push_back (r);
      }
      want[key].push_back (cur);
    }
  }
}
void pick_tol (Tol &t)
{
  if (!choose (3)) return;
  t.have = true;
  static const double T[] = { 0, 0.001, 0.004, 0.02, 0.3, 1.0 }; static const double Q[] = { 0, 0.001, 0.01, 0.5 };
  if (choose (2)) { t.time = true; t.t = T[choose (6)]; }
  if (choose (2)) { t.rate = true; t.r = Q[choose (4)]; }
}
Str seg_state (const MS3TraceSeg *g)
{
  Str s = fmt ("%lld..%lld n=%lld/%lld %d rate=%g size=%llu ", (long long)g->starttime, (long long)g->endtime, (long long)g->samplecnt, (long long)g->numsamples, g->numsamples ? g->sampletype : 0, g->samprate, (unsigned long long)(g->datasamples ? g->datasize : 0));
  if (g->datasamples && g->numsamples > 0) s += Str ((char *)g->datasamples, g->numsamples * ms_samplesize (g->sampletype));
  if (g->recordlist) s += fmt (" records %llu", (unsigned long long)g->recordlist->recordcnt);
  return s + ";";
}
Str fullinfo (const MS3TraceList *l)
{
  Str s;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) { s += fmt ("%s v%d ", id->sid, id->pubversion); for (MS3TraceSeg *g = id->first; g; g = g->next) { Str q = seg_state (g); size_t a = q.find (" size="), b = q.find (' ', a + 1); q.erase (a, b - a); s += q; } }
  return s;
}
