// C04: damaged bytes never come back as data and cost only the records they hit
#include "scn.h"
using namespace sim;

struct Damaged { Str bytes; std::vector<RefRec> recs; std::vector<int64_t> offs; int64_t firstbad = -1; };

// what is really in the bytes: version 3 records whose CRC is right, from left to right
static void scan (Damaged &d)
{
  d.recs.clear (); d.offs.clear (); d.firstbad = -1;
  for (size_t i = 0; i < d.bytes.size ();)
  {
    RefRec r; size_t n = 0;
    if (i + 40 <= d.bytes.size () && d.bytes[i] == 'M' && d.bytes[i + 1] == 'S' && d.bytes[i + 2] == 3) n = decode_rec (d.bytes.data () + i, d.bytes.size () - i, r);
    if (n) { d.recs.push_back (r); d.offs.push_back (i); i += n; }
    else { if (d.firstbad < 0) d.firstbad = i; i++; }
  }
}
// a place within the stream, often inside a header
static size_t place (const Stream &s, size_t len)
{
  if (choose (3)) { size_t k = choose (s.recs.size ()); size_t L = s.recs[k].raw.size (); size_t o = choose (3) ? choose (std::min<size_t> (L, 44)) : choose (L); return std::min (len, (size_t)s.offs[k] + o); }
  return choose (len + 1);
}
static Str noise (size_t n) { Str j (n, 0); Rng g = bulk (); for (auto &c : j) c = g.next () >> 33; return j; }
static void damage (const Stream &s, Str &b)
{
  size_t L = b.size (); if (!L) return;
  size_t p = place (s, L - 1); if (p >= L) p = L - 1;
  switch (choose (11))
  {
  case 0: { int bit = choose (8); b[p] ^= 1 << bit; fault ("bit-flip"); log ("damage: bit %d of byte %zu", bit, p); break; }
  case 1: { size_t n = std::min<size_t> (L - p, 1 + logsize (600)); Str j = noise (n); b.replace (p, n, j); fault ("overwrite"); log ("damage: %zu bytes at %zu overwritten", n, p); break; }
  case 2: { size_t q = p / 512 * 512, n = std::min<size_t> (L - q, 512); b.replace (q, n, Str (n, choose (2) ? 0 : '\xff')); fault ("zeroed-sector"); log ("damage: sector at %zu blank", q); break; }
  case 3: { size_t n = std::min<size_t> (L - p, 1 + logsize (600)); b.erase (p, n); fault ("lost-bytes"); log ("damage: %zu bytes at %zu lost", n, p); break; }
  case 4: { size_t n = 1 + logsize (300); Str j = choose (2) ? noise (n) : Str (n, choose (2) ? 0 : ' '); b.insert (p, j); fault ("inserted-junk"); log ("damage: %zu bytes inserted at %zu", n, p); break; }
  case 5: { size_t q = place (s, L); if (q < p) std::swap (p, q); b.erase (p, q - p); fault ("splice"); log ("damage: %zu..%zu cut out", p, q); break; }
  case 6: { size_t q = place (s, L), n = std::min<size_t> (L - q, 1 + logsize (2000)); Str j = b.substr (q, n); if (p + n > L) n = L - p, j.resize (n); b.replace (p, n, j); fault ("misplaced-write"); log ("damage: %zu bytes of %zu written at %zu", n, q, p); break; }
  case 7: { size_t a = p / 512 * 512, c = place (s, L - 1) / 512 * 512; if (a > c) std::swap (a, c); size_t n = std::min<size_t> (512, L - c); if (c - a < n) n = c - a; for (size_t i = 0; i < n; i++) std::swap (b[a + i], b[c + i]); fault ("swapped-sectors"); log ("damage: sectors %zu and %zu exchanged", a, c); break; }
  case 8: { b.resize (p); fault ("torn-tail"); log ("damage: cut at %zu", p); break; }
  case 9:
  { // a header field set to an extreme value
    size_t k = choose (s.recs.size ()), o = s.offs[k];
    static const int at[][2] = { { 33, 1 }, { 34, 2 }, { 36, 4 }, { 28, 4 }, { 24, 4 }, { 15, 1 }, { 8, 4 }, { 16, 8 }, { 4, 4 }, { 12, 3 }, { 32, 1 }, { 2, 1 }, { 3, 1 } };
    int f = choose (13), n = at[f][1]; int64_t q = o + at[f][0]; if (q + n > (int64_t)L) break;
    int z = choose (3); for (int i = 0; i < n; i++) b[q + i] = z == 0 ? 0 : z == 1 ? 0xff : (char)choose (256);
    fault ("header-field"); log ("damage: field at byte %d of record %zu", at[f][0], k); break;
  }
  default: { size_t n = 1 + choose (40); Str j = "MS\x03"; j += noise (37 + n); j[36] = choose (200); j[37] = j[38] = choose (3); j[39] = 0; if (choose (3) == 2) j[38] = choose (256); j[12] = 1; j[13] = 2; j[14] = 3; b.insert (p, j); fault ("fake-header"); log ("damage: header-like bytes inserted at %zu", p); break; }
  }
}
static bool make (Stream &s, Damaged &d, int maxrec, size_t *need)
{
  int n = 1 + choose (maxrec); size_t mx = 64;
  GenOpt o; o.v2 = false; o.max_samples = choose (6) == 5 ? 4000 : 150; o.max_len = 20000; o.sidpool = 6;
  for (int i = 0; i < n; i++) { RefRec r = gen_record (o); mx = std::max (mx, r.raw.size ()); s.add (r); }
  d.bytes = s.bytes;
  int k = choose (5); // 0: no damage
  for (int i = 0; i < k; i++) damage (s, d.bytes);
  // version 2 records carry no check: bytes that look like one are outside this property
  if (has_lookalike (d.bytes, {}) ) { for (size_t i = 0; i + 48 <= d.bytes.size (); i++) if (v2hdr (d.bytes.data () + i)) return false; }
  scan (d); *need = mx;
  if (d.bytes != s.bytes) nontrivial ();
  return true;
}
static bool looks_partial (const Damaged &d)
{
  size_t p = d.firstbad, left = d.bytes.size () - p; const unsigned char *h = (const unsigned char *)d.bytes.data () + p;
  if (left < 40) return true;
  if (memcmp (h, "MS\x03", 3)) return false;
  uint64_t L = 40 + h[33] + (h[34] | h[35] << 8) + (uint64_t)(h[36] | h[37] << 8 | h[38] << 16 | (uint32_t)h[39] << 24);
  return L > left;
}
static void check (const Damaged &d, const ReadOut &o, bool skip, bool unp, const char *what, bool checkoff)
{
  size_t want = d.recs.size ();
  if (!skip && d.firstbad >= 0) { want = 0; while (want < d.offs.size () && d.offs[want] < d.firstbad) want++; }
  for (size_t i = 0; i < std::min (o.recs.size (), want); i++)
  {
    Str e = diff_got (o.recs[i], d.recs[i], d.offs[i], unp, checkoff);
    if (!e.empty ())
    {
      // which kind: something not stored, or an intact record left out
      bool real = false; for (auto &r : d.recs) if (r.raw == o.recs[i].raw) real = true;
      violate (real ? "damage:intact-lost" : "damage:returned", "%s: record %zu should be %s at %lld: %s", what, i, describe (d.recs[i]).c_str (), (long long)d.offs[i], e.c_str ());
    }
  }
  if (o.recs.size () > want) violate ("damage:returned", "%s: %zu records returned, only %zu are intact%s; extra: %s", what, o.recs.size (), want, skip ? "" : " before the damage", describe (o.recs[want]).c_str ());
  if (o.recs.size () < want) violate ("damage:intact-lost", "%s: %zu of %zu intact records returned, then %s; missing: %s at %lld", what, o.recs.size (), want, codename (o.code), describe (d.recs[o.recs.size ()]).c_str (), (long long)d.offs[o.recs.size ()]);
  if (skip)
  {
    if (want) NEED (o.code == MS_ENDOFFILE, "damage:end-code", "%s: ends with %s after all intact records", what, codename (o.code));
    else NEED (o.code == MS_ENDOFFILE || o.code == MS_NOTSEED, "damage:end-code", "%s: %s for a source without intact records", what, codename (o.code));
  }
  else if (d.firstbad < 0) NEED (o.code == (d.recs.empty () ? MS_NOTSEED : MS_ENDOFFILE), "damage:end-code", "%s: %s although nothing is damaged", what, codename (o.code));
  else if (!looks_partial (d)) NEED (o.code < 0, "damage:silent", "%s: damage at byte %lld of %zu ends reading with %s", what, (long long)d.firstbad, d.bytes.size (), codename (o.code));
}

SCENARIO (C04, stream)
{
  sim_setup ();
  Stream s; Damaged d; size_t need; if (!make (s, d, 10, &need)) return;
  tune_buffer (need);
  bool skip = choose (3) != 2, unp = !choose (2);
  uint32_t flags = MSF_VALIDATECRC | (skip ? MSF_SKIPNOTDATA : 0) | (unp ? MSF_UNPACKDATA : 0);
  SrcKind k = (SrcKind)choose (SRC_NKINDS); int api = choose (4) == 3 && k != SRC_FD ? 1 : 0;
  Source src = make_source (k, d.bytes, "dmg");
  log ("%zu records, %zu bytes after damage via %s, buffer %d, flags 0x%x: %zu intact, first damage at %lld", s.recs.size (), d.bytes.size (), kindname (k), libmseed_sim_maxreclen, flags, d.recs.size (), (long long)d.firstbad);
  ReadOut o = read_all (src, flags, NULL, -1, api);
  check (d, o, skip, unp, kindname (k), api == 0);
}

// damage seen through a trace list and through the program's copy
SCENARIO (C04, copies)
{
  sim_setup ();
  Stream s; Damaged d; size_t need; if (!make (s, d, 8, &need)) return;
  tune_buffer (need);
  SrcKind k = choose (3) == 2 ? SRC_URL : choose (3) == 2 ? SRC_STDIN : SRC_FILE; Source src = make_source (k, d.bytes, "dmg");
  log ("%zu records, %zu bytes after damage, %zu intact", s.recs.size (), d.bytes.size (), d.recs.size ());
  if (choose (2))
  {
    bool skip = choose (3) != 2; int how = choose (3); size_t n = d.recs.size ();
    if (!skip && d.firstbad >= 0) { n = 0; while (n < d.offs.size () && d.offs[n] < d.firstbad) n++; }
    uint32_t fl = MSF_VALIDATECRC | MSF_UNPACKDATA | MSF_RECORDLIST | (skip ? MSF_SKIPNOTDATA : 0); MS3TraceList *l = NULL; int rc;
    if (how == 0) rc = ms3_readtracelist (&l, src.path.c_str (), NULL, 0, fl, 0);
    else if (how == 1) rc = ms3_readtracelist_timewin (&l, src.path.c_str (), NULL, NSTUNSET, NSTUNSET, 0, fl, 0);
    else rc = ms3_readtracelist_selection (&l, src.path.c_str (), NULL, NULL, 0, fl, 0);
    log ("into a trace list%s", skip ? ", skipping what is not data" : "");
    if (skip || d.firstbad < 0) { if (n) NEED (rc == MS_NOERROR, "damage:end-code", "trace list: %s", codename (rc)); }
    else if (!looks_partial (d)) NEED (rc < 0, "damage:silent", "trace list: damage at byte %lld of %zu ends reading with %s", (long long)d.firstbad, d.bytes.size (), codename (rc));
    std::map<Str, std::vector<int64_t>> want, have; std::map<Str, int64_t> wc, hc;
    for (size_t i = 0; i < n; i++) { want[d.recs[i].sid].push_back (d.offs[i]); wc[d.recs[i].sid] += d.recs[i].nsamp (); }
    if (l) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) { hc[id->sid] += g->numsamples; if (g->recordlist) for (MS3RecordPtr *p = g->recordlist->first; p; p = p->next) have[id->sid].push_back (p->fileoffset); }
    for (auto &h : have) std::sort (h.second.begin (), h.second.end ());
    for (auto &h : hc) NEED (wc.count (h.first) && wc[h.first] == h.second, "damage:returned", "trace list has %lld samples of %s, intact records have %lld", (long long)h.second, h.first.c_str (), (long long)wc[h.first]);
    NEED (have == want, "damage:intact-lost", "the records listed are not the intact ones");
    mstl3_free (&l, 0);
  }
  else
  {
    Str p = src.path; if (p.compare (0, 7, "file://") == 0) p = src.name;
    MsiResult r = run_msi ({ "-snd", "-o", "copy", p });
    Str want; for (auto &x : d.recs) want += x.raw;
    Str got = has_file ("copy") ? file ("copy").data : "";
    NEED (got == want, got.size () > want.size () ? "damage:returned" : "damage:intact-lost", "the copy has %zu bytes, the intact records %zu", got.size (), want.size ());
    if (d.recs.size ()) NEED (r.status == 0, "damage:msi-status", "msi -snd ends with status %d", r.status);
  }
}

// a single damaged record handed to the parser: refused, whatever was hit
SCENARIO (C04, parse)
{
  sim_setup ();
  libmseed_sim_maxreclen = 10485760;
  GenOpt o; o.v2 = false; o.max_samples = 300; o.max_len = 20000;
  RefRec r = gen_record (o); Str b = r.raw; int k = 1 + choose (3);
  Stream s; s.add (r);
  for (int i = 0; i < k; i++) damage (s, b);
  b += choose (2) ? noise (choose (100)) : Str ();
  if (b.size () >= 48 && v2hdr (b.data ())) return;
  nontrivial ();
  const char *p = ro_copy (b); MS3Record *m = NULL;
  int rc = msr3_parse (p, b.size (), &m, MSF_VALIDATECRC | (choose (2) ? MSF_UNPACKDATA : 0) | (choose (2) ? MSF_ATENDOFFILE : 0), 0);
  RefRec q; bool intact = b.size () >= 40 && !memcmp (b.data (), "MS\x03", 3) && decode_rec (b.data (), b.size (), q);
  log ("%s, %zu bytes left: %d", describe (r).c_str (), b.size (), rc);
  if (rc == 0) NEED (intact, "damage:returned", "an altered record of %s parses without error", r.sid.c_str ());
  else NEED (!intact, "damage:intact-lost", "an intact record is refused with %s", codename (rc));
  msr3_free (&m);
  // the same bytes as a buffer for a trace list
  MS3TraceList *l = NULL; int64_t n = mstl3_readbuffer (&l, p, b.size (), 0, MSF_VALIDATECRC | MSF_UNPACKDATA, NULL, 0);
  int64_t have = 0; if (l) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) have += g->numsamples;
  NEED (intact || (n <= 0 && have == 0), "damage:returned", "an altered record is taken into a trace list");
  mstl3_free (&l, 0);
}

// damaged version 3 records between intact records of both versions
SCENARIO (C04, mixed)
{
  sim_setup ();
  int n = 2 + choose (9); Stream s; Damaged d; size_t mx = 64; std::map<int64_t, RefRec> v2at;
  for (int i = 0; i < n; i++)
  {
    GenOpt o; o.max_samples = 150; o.max_len = 20000; o.sidpool = 6; RefRec r = gen_record (o); mx = std::max (mx, r.raw.size ());
    if (r.fmt == 2) v2at[d.bytes.size ()] = r;
    Str b = r.raw;
    if (r.fmt == 3 && choose (2)) { Stream one; one.add (r); int k = 1 + choose (2); for (int j = 0; j < k; j++) damage (one, b); if (b != r.raw) nontrivial (); }
    d.bytes += b; s.add (r);
  }
  for (size_t i = 0; i + 48 <= d.bytes.size (); i++) if (v2hdr (d.bytes.data () + i) && !v2at.count (i)) return;
  for (size_t i = 0; i < d.bytes.size ();)
  {
    auto v = v2at.find (i); RefRec r; size_t len = 0;
    if (v != v2at.end ()) { r = v->second; len = r.raw.size (); }
    else if (i + 40 <= d.bytes.size () && !memcmp (d.bytes.data () + i, "MS\x03", 3)) len = decode_rec (d.bytes.data () + i, d.bytes.size () - i, r);
    if (len) { d.recs.push_back (r); d.offs.push_back (i); i += len; } else { if (d.firstbad < 0) d.firstbad = i; i++; }
  }
  tune_buffer (mx);
  bool skip = choose (4) != 3, unp = !choose (2); uint32_t flags = MSF_VALIDATECRC | (skip ? MSF_SKIPNOTDATA : 0) | (unp ? MSF_UNPACKDATA : 0);
  SrcKind k = (SrcKind)choose (SRC_NKINDS); Source src = make_source (k, d.bytes, "dmg");
  log ("%d records of both versions, %zu bytes, %zu intact, first damage at %lld, via %s, flags 0x%x", n, d.bytes.size (), d.recs.size (), (long long)d.firstbad, kindname (k), flags);
  ReadOut o = read_all (src, flags);
  check (d, o, skip, unp, kindname (k), true);
}
