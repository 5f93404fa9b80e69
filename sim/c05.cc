// C05: trace assembly does not depend on the order in which records arrive
#include "scn.h"
using namespace sim;

static void compare (const MS3TraceList *l, Want &want, std::map<Str, int> &maxver, const std::vector<RefRec> &recs, bool split, bool unp, bool rl, int way)
{
  size_t n = 0;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0], n++)
  {
    auto w = want.find (std::make_pair (Str (id->sid), split ? (int)id->pubversion : 0));
    NEED (w != want.end (), "assembly:id", "unexpected entry %s version %d", id->sid, id->pubversion);
    if (!split) NEED (id->pubversion == maxver[id->sid], "assembly:version", "%s has version %d instead of %d", id->sid, id->pubversion, maxver[id->sid]);
    size_t k = 0;
    for (MS3TraceSeg *g = id->first; g; g = g->next, k++)
    {
      if (k >= w->second.size ()) violate ("assembly:segments", "%s has more than the expected %zu segments: %s", id->sid, w->second.size (), seginfo (l).c_str ());
      Seg &s = w->second[k];
      NEED (g->starttime == s.start && llabs (g->endtime - s.end) <= 1 && g->samplecnt == s.cnt, "assembly:segment", "%s segment %zu is %lld..%lld with %lld samples instead of %lld..%lld with %lld", id->sid, k, (long long)g->starttime, (long long)g->endtime, (long long)g->samplecnt, (long long)s.start, (long long)s.end, (long long)s.cnt);
      bool ok = false; for (double r : s.rates) if (fabs (r - g->samprate) < 1e-9 * r) ok = true;
      NEED (ok, "assembly:rate", "%s segment %zu has rate %g", id->sid, k, g->samprate);
      if (unp)
      {
        NEED (g->numsamples == s.cnt && g->sampletype == s.type, "assembly:data", "%s segment %zu holds %lld samples of type %c", id->sid, k, (long long)g->numsamples, g->sampletype);
        if (Str ((char *)g->datasamples, s.bytes.size ()) != s.bytes) violate ("assembly:data", "%s segment %zu: samples are not those of the records in time order", id->sid, k);
      }
      else NEED (g->numsamples == 0, "assembly:data", "samples without unpacking");
      if (rl)
      {
        NEED (g->recordlist && g->recordlist->recordcnt == s.recs.size (), "assembly:record-list", "%s segment %zu lists %llu records instead of %zu", id->sid, k, (unsigned long long)(g->recordlist ? g->recordlist->recordcnt : 0), s.recs.size ());
        size_t q = 0; for (MS3RecordPtr *p = g->recordlist->first; p; p = p->next, q++)
        {
          const RefRec &r = recs[s.recs[q]];
          NEED (p->msr->starttime == r.start && llabs (p->endtime - r.end ()) <= 1 && p->msr->samplecnt == r.nsamp () && p->msr->pubversion == r.pubver, "assembly:record-list", "%s segment %zu: record %zu of its list is not the %zu-th in time", id->sid, k, q, q);
          if (way == 0) NEED ((size_t)(intptr_t)p->prvtptr == s.recs[q] + 1, "assembly:record-list", "%s segment %zu: private pointer of record %zu changed", id->sid, k, q);
        }
      }
    }
    NEED (k == w->second.size (), "assembly:segments", "%s has %zu segments instead of %zu: %s", id->sid, k, w->second.size (), seginfo (l).c_str ());
  }
  NEED (n == want.size (), "assembly:ids", "%zu entries instead of %zu", n, want.size ());
}
static void assembly (int nchan, int maxrec)
{
  Tol tol; pick_tol (tol); bool split = choose (2);
  std::vector<RefRec> recs; Want want; std::map<Str, int> maxver;
  build_case (recs, want, maxver, tol, split, nchan, maxrec);
  size_t mx = 0; for (auto &r : recs) mx = std::max (mx, r.raw.size ());
  tune_buffer (mx);
  if (recs.size () > 1) nontrivial ();
  int rounds = 1 + choose (2);
  for (int k = 0; k < rounds; k++)
  {
    auto order = permutation (recs.size ()); bool unp = choose (3) != 2, rl = choose (2); int way = choose (3);
    log ("%zu records, tolerance %d/%g/%g, split %d, unpack %d, record lists %d, way %d", recs.size (), (int)tol.have, tol.time ? tol.t : -1, tol.rate ? tol.r : -1, (int)split, (int)unp, (int)rl, way);
    if (recs.size () < 60) for (size_t i : order) log ("  %s version %d end %lld", describe (recs[i]).c_str (), recs[i].pubver, (long long)recs[i].end ());
    MS3TraceList *l = NULL;
    deliver (&l, recs, order, way, unp, rl, split, true, tol);
    check_list (l, split, "after assembly");
    hashs (seginfo (l));
    compare (l, want, maxver, recs, split, unp, rl, way);
    if (choose (4) == 3) { NEED (mstl3_resize_buffers (l) == 0, "assembly:resize", "mstl3_resize_buffers fails"); compare (l, want, maxver, recs, split, unp, rl, way); }
    mstl3_free (&l, 0);
  }
}
SCENARIO (C05, channels) { sim_setup (); assembly (1 + choose (5), 8); }
SCENARIO (C05, one_long) { sim_setup (); assembly (1, 40); }
SCENARIO (C05, many) { sim_setup (); assembly (10 + choose (28), 4); }
