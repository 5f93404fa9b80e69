// C06: trace lists conserve samples and stay well formed under any delivery
#include "scn.h"
using namespace sim;

typedef std::pair<Str, int> Key;
static Str sorted (const Str &b, char type)
{ // multiset of sample values
  size_t z = type == 'd' ? 8 : type == 't' ? 1 : 4; std::vector<Str> v; for (size_t i = 0; i + z <= b.size (); i += z) v.push_back (b.substr (i, z));
  std::sort (v.begin (), v.end ()); Str o; for (auto &x : v) o += x; return o;
}
static bool near_rate (double a, double b, const Tol &t) { if (t.have && t.rate && t.r > 0) return fabs (a - b) <= 2 * t.r + 1e-12; return b != 0 && fabs (1.0 - a / b) < 0.0003; }
static int64_t tol_of (const RefRec &r, const Tol &t) { return t.have && t.time ? (int64_t)(1e9 * t.t) : (int64_t)(0.5 * r.period ()); }
// everything that must hold for a list holding exactly the records `in`
static void conserve (const MS3TraceList *l, const std::vector<RefRec> &all, const std::vector<size_t> &in, bool split, bool unp, bool rl, Tol &tol, const char *what, bool heal)
{
  check_list (l, split, what);
  std::map<Key, int64_t> wc, hc; std::map<Key, Str> wd, hd; std::map<Key, char> ty; std::set<Key> keys; std::map<Str, int> maxver;
  for (size_t i : in) { const RefRec &r = all[i]; Key k (r.sid, split ? r.pubver : 0); keys.insert (k); wc[k] += r.nsamp (); if (r.nsamp ()) ty[k] = r.s.type; if (unp) wd[k] += r.s.bytes (); maxver[r.sid] = std::max (maxver[r.sid], r.pubver); }
  std::map<size_t, int> seen;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
  {
    Key k (id->sid, split ? (int)id->pubversion : 0);
    NEED (keys.erase (k), "conserve:id", "%s: entry %s version %d was not added", what, id->sid, id->pubversion);
    if (!split) NEED (id->pubversion == maxver[id->sid], "conserve:version", "%s: %s has version %d, largest added is %d", what, id->sid, id->pubversion, maxver[id->sid]);
    for (MS3TraceSeg *g = id->first; g; g = g->next)
    {
      hc[k] += g->samplecnt;
      if (unp) NEED (g->numsamples == g->samplecnt, "conserve:data", "%s: a segment of %s counts %lld samples and holds %lld", what, id->sid, (long long)g->samplecnt, (long long)g->numsamples);
      Str data; if (g->numsamples) data = Str ((char *)g->datasamples, g->numsamples * ms_samplesize (g->sampletype));
      hd[k] += data;
      if (!rl) continue;
      NEED (g->recordlist && g->recordlist->first, "conserve:record-list", "%s: a segment of %s without record list", what, id->sid);
      Str cat; int64_t cnt = 0; const RefRec *prev = NULL;
      for (MS3RecordPtr *p = g->recordlist->first; p; p = p->next)
      {
        size_t i = (size_t)(intptr_t)p->prvtptr - 1;
        NEED (i < all.size (), "conserve:record-list", "%s: unknown entry in a record list of %s", what, id->sid);
        const RefRec &r = all[i]; seen[i]++;
        NEED (r.sid == id->sid && (!split || r.pubver == id->pubversion), "conserve:record-list", "%s: a record of %s is listed under %s", what, r.sid.c_str (), id->sid);
        NEED (r.sid == p->msr->sid && p->msr->starttime == r.start && p->msr->samplecnt == r.nsamp () && p->msr->pubversion == r.pubver && p->msr->reclen == (int)r.raw.size () && llabs (p->endtime - r.end ()) <= 1 && p->msr->formatversion == r.fmt && (r.fmt == 2 || p->msr->flags == r.flags) && fabs (msr3_sampratehz (p->msr) - r.hz ()) <= 1e-6 * r.hz () && (r.fmt == 2 || p->msr->encoding == r.enc), "conserve:record-details", "%s: details of a listed record of %s differ from the record", what, id->sid);
        if (r.fmt == 3) NEED ((p->msr->extra ? Str (p->msr->extra) : Str ()) == r.extra, "conserve:record-details", "%s: extra headers of a listed record of %s differ", what, id->sid);
        cat += r.s.bytes (); cnt += r.nsamp ();
        if (prev)
        {
          NEED (r.nsamp () && prev->nsamp (), "conserve:empty-joined", "%s: %s and %s are joined though one has no samples, which shifts the time of those after it", what, describe (*prev).c_str (), describe (r).c_str ());
          int64_t ga = r.start - prev->end () - r.period (), gb = r.start - prev->end () - prev->period ();
          NEED (llabs (ga) <= tol_of (r, tol) + 2 || llabs (gb) <= tol_of (*prev, tol) + 2, "conserve:not-contiguous", "%s: %s at %lld is joined to one that ends at %lld, period %lld", what, describe (r).c_str (), (long long)r.start, (long long)prev->end (), (long long)r.period ());
          NEED (near_rate (r.hz (), g->samprate, tol) && near_rate (prev->hz (), g->samprate, tol), "conserve:rate", "%s: rates %g and %g are joined", what, r.hz (), g->samprate);
        }
        else NEED (g->starttime == r.start, "conserve:seg-time", "%s: segment of %s starts at %lld, its first record at %lld", what, id->sid, (long long)g->starttime, (long long)r.start);
        prev = &r;
      }
      NEED (llabs (g->endtime - prev->end ()) <= 1, "conserve:seg-time", "%s: segment of %s ends at %lld, its last record at %lld", what, id->sid, (long long)g->endtime, (long long)prev->end ());
      NEED (cnt == g->samplecnt, "conserve:count", "%s: segment of %s counts %lld samples, its records have %lld", what, id->sid, (long long)g->samplecnt, (long long)cnt);
      if (unp) NEED (cat == data, "conserve:data", "%s: samples of a segment of %s are not those of its listed records", what, id->sid);
    }
  }
  // healing leaves no two segments that fit end to start (one rate and one kind of samples under the identifier)
  std::map<Key, const RefRec *> one; std::set<Key> mixed;
  for (size_t i : in) { const RefRec &r = all[i]; Key k (r.sid, split ? r.pubver : 0); if (!one.count (k)) one[k] = &r; if (r.nsamp () == 0) { if (!one[k]->nsamp ()) one.erase (k); continue; } if (r.hz () <= 0 || r.hz () != one[k]->hz () || r.s.type != one[k]->s.type) mixed.insert (k); }
  for (MS3TraceID *id = l->traces.next[0]; heal && id; id = id->next[0])
  {
    Key k (id->sid, split ? (int)id->pubversion : 0); if (mixed.count (k) || !one.count (k)) continue; int64_t per = one[k]->period (), tl = tol_of (*one[k], tol) - 3;
    for (MS3TraceSeg *a = id->first; a; a = a->next) for (MS3TraceSeg *b = id->first; b; b = b->next) NEED (a == b || !a->samplecnt || !b->samplecnt || llabs (b->starttime - a->endtime - per) > tl, "conserve:not-healed", "%s: segments of %s that end at %lld and start at %lld are left apart, period %lld", what, id->sid, (long long)a->endtime, (long long)b->starttime, (long long)per);
  }
  NEED (keys.empty (), "conserve:id", "%s: %zu identifiers were lost", what, keys.size ());
  for (auto &w : wc) NEED (hc[w.first] == w.second, "conserve:count", "%s: %s has %lld samples, %lld were added", what, w.first.first.c_str (), (long long)hc[w.first], (long long)w.second);
  if (unp) for (auto &w : wd) NEED (sorted (w.second, ty[w.first]) == sorted (hd[w.first], ty[w.first]), "conserve:data", "%s: sample values of %s are not those added", what, w.first.first.c_str ());
  if (rl) { for (size_t i : in) NEED (seen[i] == 1, "conserve:record-list", "%s: %s is listed %d times", what, describe (all[i]).c_str (), seen[i]); NEED (seen.size () == in.size (), "conserve:record-list", "%s: records listed that were not added", what); }
}
struct Case { std::vector<RefRec> recs; Tol tol; };
static void gen_case (Case &c, int n, bool types)
{
  static const double R[] = { 1, 1, 10, 100, 1.00004, 20, 0.1 };
  int ns = 1 + choose (4); std::vector<RefRec> t (ns);
  for (int i = 0; i < ns; i++)
  {
    t[i].fmt = choose (3) == 2 ? 2 : 3; t[i].sid = sid_for (choose (20), &t[i]); bool dup = false; for (int k = 0; k < i; k++) if (t[k].sid == t[i].sid) dup = true; if (dup) { t[i] = t[choose (i)]; continue; }
    static const int e[] = { 3, 11, 10, 4, 5, 1, 0 }; t[i].enc = e[choose (7)]; t[i].be = choose (2);
  }
  if (choose (3) == 2) { c.tol.have = true; if (choose (2)) { c.tol.time = true; static const double T[] = { 0, 0.004, 0.1, 0.4 }; c.tol.t = T[choose (4)]; } if (choose (2)) { c.tol.rate = true; static const double Q[] = { 0, 0.01, 0.5 }; c.tol.r = Q[choose (3)]; } }
  int64_t t0 = some_time (2, cal2ns (2020, 60, 0, 0, 0, 0)); int nr = 1 + choose (3); int rmix = choose (7); static const int VB[] = { 0, 0, 0, 0, 125, 252 }; int vbase = VB[choose (6)];
  for (int i = 0; i < n; i++)
  {
    if (c.recs.size () && choose (6) == 5) { c.recs.push_back (c.recs[choose (c.recs.size ())]); fault ("duplicate-record"); continue; }
    RefRec x = t[choose (ns)]; int e0 = x.enc;
    double rate = R[(rmix + choose (nr)) % 7]; if (x.enc == 0 && choose (2) && !c.tol.time) rate = 0;
    if (c.tol.time && rate * c.tol.t * 2 > 1) rate = 1; // joins by tolerance stay shorter than a sample
    if (x.fmt == 2) { if (rate == 1.00004) rate = 1; set_rate2 (x, rate); } else x.rate = rate;
    x.pubver = 1 + choose (choose (2) ? 3 : 1); if (vbase && x.fmt == 3) x.pubver += vbase;
    if (types && choose (6) == 5) { static const int e[] = { 3, 4, 5 }; x.enc = e[choose (3)]; }
    if (x.fmt == 3 && choose (5) == 4) x.extra = "{\"a\":" + fmt ("%u", choose (100)) + "}";
    size_t m = choose (10) == 9 ? 0 : 1 + logsize (30); Samples s = gen_samples (api_sampletype (x.enc), m, x.enc == 1 ? 1 : choose (5));
    int64_t at;
    // most often next to, or overlapping, a record already there
    std::vector<size_t> same; for (size_t k = 0; k < c.recs.size (); k++) if (c.recs[k].sid == x.sid) same.push_back (k);
    int64_t p = x.period () ? x.period () : 1000000000;
    if (same.size () && choose (4))
    {
      const RefRec &o = c.recs[same[choose (same.size ())]];
      switch (choose (5)) { case 0: at = o.end () + p; break; case 1: at = o.start - p * (int64_t)m; break; case 2: at = o.start; break; case 3: at = o.start + (int64_t)choose (20) * p / 2; break; default: at = o.end () + p + ((int64_t)choose (5) - 2) * p / 4; }
    }
    else at = t0 + (int64_t)choose (200) * 1000000000;
    if (x.fmt == 2) at = at / 1000 * 1000;
    (void)e0; c.recs.push_back (make_piece (x, at, s));
  }
}
static Str state (const MS3TraceList *l)
{
  Str s = seginfo (l);
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) { s += g->sampletype; if (g->numsamples) s += Str ((char *)g->datasamples, g->numsamples * ms_samplesize (g->sampletype)); s += fmt ("%llu", (unsigned long long)(g->recordlist ? g->recordlist->recordcnt : 0)); }
  return s;
}

// one record at a time, everything checked after each
static void in_lists (const MS3TraceList *l, const std::vector<RefRec> &all, std::set<size_t> listed)
{
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next)
  {
    if (!g->recordlist) continue;
    uint64_t n = 0; MS3RecordPtr *last = NULL;
    for (MS3RecordPtr *p = g->recordlist->first; p; p = p->next)
    {
      size_t i = (intptr_t)p->prvtptr - 1; n++; last = p;
      NEED (listed.erase (i), "conserve:record-list", "%s: a record is listed that was not added with its location, or is listed twice", id->sid);
      NEED (all[i].sid == id->sid && p->msr->starttime == all[i].start && p->msr->starttime >= g->starttime && p->endtime <= g->endtime + 1, "conserve:record-list", "%s: a listed record is not in its segment", id->sid);
    }
    NEED (n && n == g->recordlist->recordcnt && last == g->recordlist->last, "conserve:record-list", "%s: %llu records listed, the count is %llu", id->sid, (unsigned long long)n, (unsigned long long)g->recordlist->recordcnt);
  }
  NEED (listed.empty (), "conserve:record-list", "%zu records are not in the lists", listed.size ());
}
SCENARIO (C06, each)
{
  sim_setup ();
  Case c; bool types = choose (3) == 2; gen_case (c, 2 + choose (30), types);
  bool split = choose (2), unp = choose (4) != 3, rl = choose (3) != 2, heal = choose (3) != 2;
  MS3TraceList *l = mstl3_init (NULL); std::vector<size_t> in; MS3Record *m = NULL; nontrivial ();
  bool mixed = choose (5) == 4; std::set<size_t> listed; if (mixed) { rl = false; probe ("mixed-record-lists"); } // only some records are added to record lists
  log ("%zu records, tolerance %d/%g/%g, split %d unpack %d record lists %d heal %d", c.recs.size (), (int)c.tol.have, c.tol.time ? c.tol.t : -1, c.tol.rate ? c.tol.r : -1, (int)split, (int)unp, (int)rl, (int)heal);
  for (size_t i = 0; i < c.recs.size (); i++)
  {
    const RefRec &r = c.recs[i];
    int rc = msr3_parse (r.raw.data (), r.raw.size (), &m, unp ? MSF_UNPACKDATA : 0, 0); NEED (rc == 0, "deliver:parse", "%s refused with %s", describe (r).c_str (), codename (rc));
    Str before = types ? state (l) : Str ();
    bool rlk = mixed ? choose (2) : rl; MS3RecordPtr *rp = NULL; MS3TraceSeg *g = rlk ? mstl3_addmsr_recordptr (l, m, &rp, split, heal, 0, c.tol.get ()) : mstl3_addmsr (l, m, split, heal, 0, c.tol.get ());
    log ("add %s version %d: %s", describe (r).c_str (), r.pubver, g ? "ok" : "refused");
    if (!g)
    {
      // only because its samples are of another kind than those it would join
      bool other = false; for (size_t k : in) if (c.recs[k].sid == r.sid && c.recs[k].s.type != r.s.type) other = true;
      NEED (other && unp, "deliver:refused", "record not taken: %s", describe (r).c_str ());
      NEED (state (l) == before, "conserve:refused-changed", "a record that is refused changes the list: %s", describe (r).c_str ());
      probe ("type-refused");
      continue;
    }
    if (rlk) { rp->prvtptr = (void *)(intptr_t)(i + 1); listed.insert (i); }
    if (mixed) in_lists (l, c.recs, listed);
    in.push_back (i);
    if (types) { check_list (l, split, "after adding"); continue; }
    bool found = false; for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *q = id->first; q; q = q->next) if (q == g) { found = true; NEED (r.sid == id->sid, "conserve:returned-segment", "the segment returned belongs to %s", id->sid); }
    NEED (found, "conserve:returned-segment", "the segment returned for %s is not in the list", describe (r).c_str ());
    if (i % 3 == 0 || i + 1 == c.recs.size ()) conserve (l, c.recs, in, split, unp, rl, c.tol, "after adding", heal);
    else check_list (l, split, "after adding");
  }
  // every sample by count even with several kinds of samples under one identifier
  int64_t w = 0, h = 0; for (size_t i : in) w += c.recs[i].nsamp (); for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) h += g->samplecnt;
  NEED (w == h, "conserve:count", "%lld samples added, %lld in the list", (long long)w, (long long)h);
  hashs (state (l));
  msr3_free (&m); mstl3_free (&l, 0);
}

// through buffers and files
SCENARIO (C06, bulk)
{
  sim_setup ();
  Case c; gen_case (c, 2 + choose (40), false); size_t mx = 0; for (auto &r : c.recs) mx = std::max (mx, r.raw.size ()); tune_buffer (mx);
  bool split = choose (2), unp = choose (4) != 3; nontrivial ();
  std::vector<size_t> ord = permutation (c.recs.size ());
  int way = 1 + choose (2); bool rl = choose (2);
  log ("%zu records, split %d unpack %d way %d", c.recs.size (), (int)split, (int)unp, way);
  for (size_t i : ord) log ("  %s version %d end %lld", describe (c.recs[i]).c_str (), c.recs[i].pubver, (long long)c.recs[i].end ());
  MS3TraceList *l = NULL; deliver (&l, c.recs, ord, way, unp, rl, split, true, c.tol);
  conserve (l, c.recs, ord, split, unp, false, c.tol, "after reading", true);
  if (rl) { uint64_t n = 0; for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) { NEED (g->recordlist, "conserve:record-list", "segment without record list"); n += g->recordlist->recordcnt; } NEED (n == c.recs.size (), "conserve:record-list", "%llu records listed, %zu added", (unsigned long long)n, c.recs.size ()); }
  if (choose (2)) { NEED (mstl3_resize_buffers (l) == 0, "conserve:resize", "mstl3_resize_buffers fails"); conserve (l, c.recs, ord, split, unp, false, c.tol, "after resizing", true); }
  hashs (state (l)); mstl3_free (&l, 0);
}

// converting the samples of segments, and adding on afterwards
SCENARIO (C06, convert)
{
  sim_setup ();
  MS3TraceList *l = mstl3_init (NULL); MS3Record *m = NULL; nontrivial ();
  RefRec t; t.fmt = 3; t.sid = sid_for (choose (8), &t); static const int e[] = { 3, 4, 5, 0 }; t.enc = e[choose (8) == 7 ? 3 : choose (3)]; t.rate = 10;
  int64_t at = some_time (3, cal2ns (2020, 60, 0, 0, 0, 0)); std::vector<double> val; int mode = choose (4);
  auto mk = [&] (size_t n) { Samples s = gen_samples (api_sampletype (t.enc), n, 2 + choose (3));
    // what is sampled: whole numbers, nearly whole, with fractions, of either sign
    Rng g = bulk (); for (size_t i = 0; i < n; i++) { double w = (double)((int64_t)g.below (20001) - 10000); if (mode == 1) w += 0.25 * g.below (4); else if (mode == 2) w += g.below (2) ? 1e-8 : 0; else if (mode == 3 && i == n / 2) w += 0.5; if (t.enc == 4) s.f[i] = w; else if (t.enc == 5) s.d[i] = w; }
    return s; };
  auto add = [&] (const Samples &s) { RefRec r = make_piece (t, at, s); at = r.end () + r.period (); NEED (msr3_parse (r.raw.data (), r.raw.size (), &m, MSF_UNPACKDATA, 0) == 0, "deliver:parse", "refused"); return mstl3_addmsr (l, m, 0, 1, 0, NULL); };
  int n = 1 + choose (3); for (int i = 0; i < n; i++) { Samples s = mk (1 + choose (20)); NEED (add (s), "deliver:refused", "not taken"); for (size_t k = 0; k < s.n (); k++) val.push_back (s.type == 'i' ? s.i[k] : s.type == 'f' ? s.f[k] : s.type == 'd' ? s.d[k] : 0); }
  MS3TraceSeg *g = l->traces.next[0]->first; char type = g->sampletype;
  int steps = 1 + choose (4);
  for (int k = 0; k < steps; k++)
  {
    static const char T[] = "ifdt"; char to = T[choose (10) == 9 ? 3 : choose (3)]; bool trunc = choose (2); Str before = state (l);
    int rc = mstl3_convertsamples (g, to, trunc);
    log ("convert %c to %c, truncation %s: %d", type, to, trunc ? "allowed" : "refused", rc);
    bool lossy = false; if (to == 'i' && type != 'i' && type != 't') for (double v : val) if (fabs (v - (int32_t)v) > 0.000001) lossy = true;
    bool bad = to != type && (to == 't' || type == 't');
    bool refuse = bad || (lossy && !trunc);
    // a value within one millionth below a whole number counts as loss by the documented test
    if (refuse) { NEED (rc != 0, "convert:loss", "conversion that %s is not refused", bad ? "is impossible" : "loses precision"); NEED (state (l) == before, "convert:changed", "a refused conversion changes the segment"); continue; }
    NEED (rc == 0, "convert:refused", "conversion %c to %c is refused", type, to);
    if (to == 'i' && type != 'i') for (double &v : val) v = (double)(int32_t)(v + (v < 0 ? -0.5 : 0.5));
    if (to == 'f' && type != 'f') for (double &v : val) v = (float)v;
    type = to;
    NEED (g->sampletype == to && g->numsamples == (int64_t)val.size () && g->samplecnt == g->numsamples, "convert:count", "after conversion %lld samples of type %c instead of %zu of %c", (long long)g->numsamples, g->sampletype, val.size (), to);
    check_list (l, false, "after conversion");
    for (size_t i = 0; i < val.size () && type != 't'; i++) { double h = type == 'i' ? ((int32_t *)g->datasamples)[i] : type == 'f' ? ((float *)g->datasamples)[i] : ((double *)g->datasamples)[i]; NEED (h == val[i], "convert:value", "sample %zu is %.12g after conversion to %c instead of %.12g", i, h, to, val[i]); }
    // what fits afterwards: only samples of the new kind
    if (choose (3) == 2)
    {
      Str b4 = state (l); Samples s = mk (1 + choose (10)); int64_t was = at; MS3TraceSeg *q = add (s);
      if (s.type == type) { NEED (q == g, "convert:add", "samples of the same kind are not joined"); for (size_t i = 0; i < s.n (); i++) val.push_back (s.type == 'i' ? s.i[i] : s.type == 'f' ? s.f[i] : s.type == 'd' ? s.d[i] : 0); }
      else { NEED (!q, "convert:add", "samples of kind %c are joined to kind %c", s.type, type); NEED (state (l) == b4, "conserve:refused-changed", "refused samples change the segment"); at = was; }
    }
    if (choose (4) == 3) NEED (mstl3_resize_buffers (l) == 0, "conserve:resize", "mstl3_resize_buffers fails");
  }
  msr3_free (&m); mstl3_free (&l, 0);
}
// more identifiers than small lists have, added in any order
SCENARIO (C06, crowd)
{
  sim_setup (); int n = choose (12) == 11 ? 700 + choose (900) : 150 + choose (400); bool split = choose (2), unp = choose (4) == 3, rl = choose (3) == 2; Tol tol; pick_tol (tol); std::vector<RefRec> recs;
  GenOpt o; o.v2 = false; o.max_samples = 4; o.extras = false; RefRec t = gen_record (o); nontrivial ();
  for (int i = 0; i < n; i++)
  {
    RefRec r = t; r.sta = fmt ("S%d", i); r.sid = "FDSN:" + r.net + "_" + r.sta + "_" + r.loc + "_B_H_Z"; r.start = 1500000000000000000LL + choose (1000) * 1000000000LL; r.rate = 1; r.enc = 3; r.extra.clear (); r.flags = 0; r.pubver = 1; r.s = gen_samples ('i', 1 + choose (3), 10); r.raw.clear (); build (r); recs.push_back (r);
    for (int k = choose (8) == 7 ? 1 + choose (2) : 0; k; k--) { RefRec e = r; e.start = recs.back ().end () + (choose (2) ? e.period () : 5 * e.period ()); if (split && choose (2)) e.pubver = 2; e.raw.clear (); build (e); recs.push_back (e); }
  }
  auto order = permutation (recs.size ()); if (choose (4) == 3) { std::sort (order.begin (), order.end ()); if (choose (2)) std::reverse (order.begin (), order.end ()); }
  MS3TraceList *l = mstl3_init (NULL); size_t cut = choose (3) ? order.size () : choose (order.size ());
  std::vector<size_t> a (order.begin (), order.begin () + cut), b (order.begin () + cut, order.end ());
  deliver (&l, recs, a, 0, unp, rl, split, true, tol); if (b.size ()) { conserve (l, recs, a, split, unp, rl, tol, "after some of the records", true); deliver (&l, recs, b, 0, unp, rl, split, true, tol); }
  conserve (l, recs, order, split, unp, rl, tol, "after all records", true);
  mstl3_free (&l, 0);
}
