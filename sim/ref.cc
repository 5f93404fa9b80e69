#include "ref.h"
#include "simint.h"
#include <stdlib.h>
#include <math.h>
using namespace sim;

// ------------------------------------------------------------------ calendar
static bool leap (int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
void ns2cal (int64_t ns, int &y, int &doy, int &h, int &mi, int &s, uint32_t &nsec)
{
  int64_t sec = ns / 1000000000, rem = ns % 1000000000;
  if (rem < 0) { rem += 1000000000; sec--; }
  nsec = rem;
  int64_t day = sec / 86400, sod = sec % 86400;
  if (sod < 0) { sod += 86400; day--; }
  h = sod / 3600; mi = sod / 60 % 60; s = sod % 60;
  y = 1970;
  while (day < 0) { y--; day += leap (y) ? 366 : 365; }
  while (day >= (leap (y) ? 366 : 365)) { day -= leap (y) ? 366 : 365; y++; }
  doy = day + 1;
}
int64_t cal2ns (int y, int doy, int h, int mi, int s, uint32_t nsec)
{
  int64_t day = 0;
  for (int k = 1970; k < y; k++) day += leap (k) ? 366 : 365;
  for (int k = y; k < 1970; k++) day -= leap (k) ? 366 : 365;
  day += doy - 1;
  return ((day * 24 + h) * 60 + mi) * 60 * 1000000000ll + (int64_t)s * 1000000000ll + nsec;
}
bool year_for_v2 (int64_t t) { int y, d, h, m, s; uint32_t n; ns2cal (t, y, d, h, m, s, n); return y >= 1900 && y <= 2100; }
int64_t some_time (int fmt, int64_t plain)
{
  int k = choose (8); if (k < 5) return plain;
  // before 1972 or after 2016: no leap second is near; well inside of what can be represented
  static const int far3[] = { 1969, 1799, 1888, 1904, 1700, 2099, 2100, 2222, 2250 }, far2[] = { 1969, 1910, 1935, 1964, 1904, 2048, 2090 };
  int y = k == 5 ? 2019 + choose (6) : fmt == 2 ? far2[choose (7)] : far3[choose (9)];
  if (k == 6) { y = fmt == 2 ? 1901 + choose (199) : 1700 + choose (560); if (fmt == 2 && y == 2056) y++; /* the same in both byte orders, with days that are too */ probe ("any-year"); return cal2ns (y, choose (2) ? 2 + choose (118) : 186 + choose (115), choose (24), choose (60), choose (60), 0); }
  probe (k == 5 ? "year-end" : y < 1970 ? "before-1970" : "other-century");
  if (y == 1969 && choose (2)) return -1000000000LL * choose (120);
  if (k == 5 || choose (3) == 2) return cal2ns (y, leap (y) ? 366 : 365, 23, choose (2) ? 59 : choose (60), choose (60), 0);
  return cal2ns (y, 1 + choose (leap (y) ? 366 : 365), choose (24), choose (60), choose (60), 0);
}
int64_t sample_time (int64_t start, int64_t n, double rate)
{
  if (n <= 0 || rate == 0) return start;
  long double per = rate > 0 ? 1000000000.0L / rate : 1000000000.0L * -rate;
  return start + (int64_t)(per * n + 0.5L);
}
int64_t RefRec::period () const { if (rate == 0) return 0; return sample_time (0, 1, rate); }
int64_t RefRec::end () const { return sample_time (start, nsamp () - 1, rate); }

uint32_t crc32c_ref (const void *p, size_t n)
{
  static uint32_t T[256]; static bool init = false;
  if (!init) { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82F63B78u : c >> 1; T[i] = c; } init = true; }
  uint32_t c = 0xFFFFFFFFu; const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) c = T[(c ^ b[i]) & 255] ^ (c >> 8);
  return c ^ 0xFFFFFFFFu;
}

// ------------------------------------------------------------------ byte order
static void put (Str &o, uint64_t v, int n, bool be) { for (int i = 0; i < n; i++) o += (char)(v >> 8 * (be ? n - 1 - i : i)); }
static uint64_t get (const char *p, int n, bool be) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)(uint8_t)p[i] << 8 * (be ? n - 1 - i : i); return v; }

// ------------------------------------------------------------------ payloads
struct Pk { int cnt, bits, nib, dn; };
static const Pk P1[] = { { 4, 8, 1, -1 }, { 2, 16, 2, -1 }, { 1, 32, 3, -1 } };
static const Pk P2[] = { { 7, 4, 3, 2 }, { 6, 5, 3, 1 }, { 5, 6, 3, 0 }, { 4, 8, 1, -1 }, { 3, 10, 2, 3 }, { 2, 15, 2, 2 }, { 1, 30, 2, 1 } };
static size_t steim_enc (int enc, const std::vector<int32_t> &v, size_t from, size_t maxframes, bool be, Str &out, int style, uint64_t seed)
{
  size_t n = v.size () - from, done = 0;
  Rng r (seed);
  const Pk *P = enc == 10 ? P1 : P2; int np = enc == 10 ? 3 : 7;
  auto d = [&] (size_t i) -> int64_t { return i == 0 ? (style ? (int64_t)(int)(r.s % 9) - 4 : 0) : (int64_t)(int32_t)((uint32_t)v[from + i] - (uint32_t)v[from + i - 1]); };
  std::vector<uint32_t> W; size_t xn = 0; size_t frames = 0;
  Str o;
  std::vector<std::vector<uint8_t>> words;
  while (done < n && frames < maxframes)
  {
    std::vector<std::vector<uint8_t>> fw (16, std::vector<uint8_t> (4, 0));
    uint32_t ctl = 0;
    auto setw = [&] (int k, uint32_t x) { for (int i = 0; i < 4; i++) fw[k][i] = x >> 8 * (be ? 3 - i : i); };
    int k = 1;
    if (frames == 0) { setw (1, (uint32_t)v[from]); k = 3; xn = words.size () + 2; }
    for (; k < 16 && done < n; k++)
    {
      int c = -1;
      for (int j = 0; j < np; j++)
      {
        if ((size_t)P[j].cnt > n - done) continue;
        bool ok = true; int64_t lim = 1ll << (P[j].bits - 1);
        for (int q = 0; q < P[j].cnt; q++) { int64_t x = d (done + q); if (x < -lim || x >= lim) { ok = false; break; } }
        if (!ok) continue;
        if (style == 2 && j + 1 < np && r.below (3) == 0) continue; // legal but less dense
        c = j; break;
      }
      if (c < 0) harness_error ("difference does not fit Steim encoding");
      const Pk &p = P[c];
      if (p.bits == 8) for (int q = 0; q < 4; q++) fw[k][q] = (uint8_t)d (done + q);
      else if (p.bits == 16) for (int q = 0; q < 2; q++) { uint16_t x = (uint16_t)d (done + q); for (int i = 0; i < 2; i++) fw[k][q * 2 + i] = x >> 8 * (be ? 1 - i : i); }
      else
      {
        uint32_t x = 0;
        uint32_t mask = p.bits == 32 ? 0xffffffffu : (1u << p.bits) - 1;
        for (int q = 0; q < p.cnt; q++) x |= ((uint32_t)d (done + q) & mask) << (p.bits * (p.cnt - 1 - q));
        if (p.dn >= 0) x |= (uint32_t)p.dn << 30;
        setw (k, x);
      }
      ctl |= (uint32_t)p.nib << (30 - 2 * k);
      done += p.cnt;
    }
    setw (0, ctl);
    for (auto &w : fw) words.push_back (w);
    frames++;
  }
  if (done) { uint32_t x = (uint32_t)v[from + done - 1]; for (int i = 0; i < 4; i++) words[xn][i] = x >> 8 * (be ? 3 - i : i); }
  for (auto &w : words) out.append ((const char *)w.data (), 4);
  return done;
}
static bool steim_dec (int enc, const Str &pl, size_t n, bool be, std::vector<int32_t> &out)
{
  std::vector<int64_t> d; int32_t x0 = 0, xn = 0;
  for (size_t f = 0; f + 64 <= pl.size () && d.size () < n; f += 64)
  {
    uint32_t ctl = get (pl.data () + f, 4, be);
    for (int k = 1; k < 16 && d.size () < n; k++)
    {
      const char *w = pl.data () + f + 4 * k; uint32_t x = get (w, 4, be);
      if (f == 0 && k == 1) { x0 = x; continue; }
      if (f == 0 && k == 2) { xn = x; continue; }
      int nib = ctl >> (30 - 2 * k) & 3;
      if (nib == 0) continue;
      auto bits = [&] (int cnt, int b) { for (int q = 0; q < cnt; q++) { int64_t y = x >> (b * (cnt - 1 - q)) & ((b == 32) ? 0xffffffffu : ((1u << b) - 1)); if (y >= (1ll << (b - 1))) y -= 1ll << b; d.push_back (y); } };
      if (nib == 1) for (int q = 0; q < 4; q++) d.push_back ((int8_t)w[q]);
      else if (enc == 10 && nib == 2) for (int q = 0; q < 2; q++) d.push_back ((int16_t)get (w + 2 * q, 2, be));
      else if (enc == 10) d.push_back ((int32_t)x);
      else
      {
        int dn = x >> 30;
        if (nib == 2) { if (dn == 1) bits (1, 30); else if (dn == 2) bits (2, 15); else if (dn == 3) bits (3, 10); else return false; }
        else { if (dn == 0) bits (5, 6); else if (dn == 1) bits (6, 5); else if (dn == 2) bits (7, 4); else return false; }
      }
    }
  }
  if (d.size () < n) return false;
  out.clear ();
  int64_t cur = x0;
  for (size_t i = 0; i < n; i++) { if (i) cur += d[i]; out.push_back ((int32_t)cur); }
  return n == 0 || out[n - 1] == xn;
}
static size_t enc_pl (const RefRec &r, size_t from, size_t maxbytes, bool be, Str &out)
{
  const Samples &s = r.s; size_t n = s.n () - from;
  switch (r.enc)
  {
  case 0: n = std::min (n, maxbytes); out.append (s.t, from, n); return n;
  case 1: n = std::min (n, maxbytes / 2); for (size_t i = 0; i < n; i++) put (out, (uint16_t)s.i[from + i], 2, be); return n;
  case 3: n = std::min (n, maxbytes / 4); for (size_t i = 0; i < n; i++) put (out, (uint32_t)s.i[from + i], 4, be); return n;
  case 4: n = std::min (n, maxbytes / 4); for (size_t i = 0; i < n; i++) { uint32_t x; memcpy (&x, &s.f[from + i], 4); put (out, x, 4, be); } return n;
  case 5: n = std::min (n, maxbytes / 8); for (size_t i = 0; i < n; i++) { uint64_t x; memcpy (&x, &s.d[from + i], 8); put (out, x, 8, be); } return n;
  case 12: n = std::min (n, maxbytes / 3); for (size_t i = 0; i < n; i++) put (out, (uint32_t)(int32_t)s.f[from + i] & 0xffffff, 3, be); return n;
  case 13: case 14: case 16: case 30: case 32:
    n = std::min (n, maxbytes / 2);
    for (size_t i = 0; i < n; i++)
    { // any of the forms that denote the value
      std::vector<uint16_t> c;
      if (r.enc == 32) c.push_back ((uint16_t)s.i[from + i]);
      else if (r.enc == 16) { static const int G[] = { 0, 2, 4, 7 }; for (int g = 0; g < 4; g++) { int64_t v = s.i[from + i], m = v >> G[g]; if (m * (1 << G[g]) == v && m >= -8191 && m <= 8192) c.push_back ((uint16_t)(g << 14 | (m + 8191))); } }
      else if (r.enc == 30) { for (int g = 0; g <= 10; g++) { int64_t v = s.i[from + i], m = v >> (10 - g); if (m * (1 << (10 - g)) == v && m >= -2048 && m <= 2047) c.push_back ((uint16_t)(g << 12 | (m & 0xfff))); } }
      else for (int g = 0; g < (r.enc == 13 ? 8 : 16); g++) { double v = (double)s.f[from + i] * (1 << g); if (v == floor (v) && v >= -2048 && v <= 2047) c.push_back ((uint16_t)(g << 12 | (int)(v + 2048))); }
      if (c.empty ()) harness_error ("value cannot be written in encoding %d", r.enc);
      put (out, c[(r.steim_seed + from + i) % c.size ()], 2, be);
    }
    return n;
  case 10: case 11: return steim_enc (r.enc, s.i, from, maxbytes / 64, be, out, r.steim_style, r.steim_seed);
  }
  harness_error ("enc %d", r.enc);
}
bool dec_payload (int enc, const Str &pl, size_t n, bool be, Samples &o)
{
  o = Samples ();
  size_t sz = enc == 0 ? 1 : enc == 1 || enc == 13 || enc == 14 || enc == 16 || enc == 30 || enc == 32 ? 2 : enc == 12 ? 3 : enc == 3 || enc == 4 ? 4 : enc == 5 ? 8 : 0;
  if (sz && pl.size () < n * sz) return false;
  switch (enc)
  {
  case 0: o.type = 't'; o.t = pl.substr (0, n); return true;
  case 1: o.type = 'i'; for (size_t i = 0; i < n; i++) o.i.push_back ((int16_t)get (pl.data () + 2 * i, 2, be)); return true;
  case 3: o.type = 'i'; for (size_t i = 0; i < n; i++) o.i.push_back ((int32_t)get (pl.data () + 4 * i, 4, be)); return true;
  case 4: o.type = 'f'; for (size_t i = 0; i < n; i++) { uint32_t x = get (pl.data () + 4 * i, 4, be); float f; memcpy (&f, &x, 4); o.f.push_back (f); } return true;
  case 5: o.type = 'd'; for (size_t i = 0; i < n; i++) { uint64_t x = get (pl.data () + 8 * i, 8, be); double f; memcpy (&f, &x, 8); o.d.push_back (f); } return true;
  case 12: o.type = 'f'; for (size_t i = 0; i < n; i++) { int32_t v = (int32_t)get (pl.data () + 3 * i, 3, be); if (v >= 1 << 23) v -= 1 << 24; o.f.push_back ((float)v); } return true;
  case 13: case 14: o.type = 'f'; for (size_t i = 0; i < n; i++) { int v = (int)get (pl.data () + 2 * i, 2, be), g = v >> 12 & (enc == 13 ? 7 : 15); o.f.push_back ((float)ldexp ((v & 0xfff) - 2048, -g)); } return true;
  case 16: o.type = 'i'; for (size_t i = 0; i < n; i++) { int v = (int)get (pl.data () + 2 * i, 2, be); static const int M[] = { 1, 4, 16, 128 }; o.i.push_back (((v & 0x3fff) - 8191) * M[v >> 14]); } return true;
  case 30: o.type = 'i'; for (size_t i = 0; i < n; i++) { int v = (int)get (pl.data () + 2 * i, 2, be), m = v & 0xfff, g = v >> 12; if (m >= 2048) m -= 4096; if (g > 10) return false; o.i.push_back (m * (1 << (10 - g))); } return true;
  case 32: o.type = 'i'; for (size_t i = 0; i < n; i++) o.i.push_back ((int16_t)get (pl.data () + 2 * i, 2, be)); return true;
  case 10: case 11: o.type = 'i'; return n == 0 || steim_dec (enc, pl, n, be, o.i);
  }
  return false;
}
char api_sampletype (int enc) { return enc == 0 ? 't' : enc == 4 || (enc >= 12 && enc <= 14) ? 'f' : enc == 5 ? 'd' : 'i'; }

// ------------------------------------------------------------------ records
void encode3 (RefRec &r)
{
  Str pl; size_t n = 0;
  if (r.s.n ()) { n = enc_pl (r, 0, SIZE_MAX / 2, r.enc == 10 || r.enc == 11, pl); if (n != r.s.n ()) harness_error ("encode3 incomplete"); }
  int y, doy, h, mi, s; uint32_t ns; ns2cal (r.start, y, doy, h, mi, s, ns);
  Str o = "MS"; o += (char)3; o += (char)r.flags;
  put (o, ns, 4, false); put (o, y, 2, false); put (o, doy, 2, false); o += (char)h; o += (char)mi; o += (char)s; o += (char)r.enc;
  uint64_t rb; memcpy (&rb, &r.rate, 8); put (o, rb, 8, false);
  put (o, n, 4, false); put (o, 0, 4, false); o += (char)r.pubver; o += (char)r.sid.size ();
  put (o, r.extra.size (), 2, false); put (o, pl.size (), 4, false);
  o += r.sid; o += r.extra; r.dataoff = o.size (); r.datalen = pl.size (); o += pl;
  uint32_t c = crc32c_ref (o.data (), o.size ());
  for (int i = 0; i < 4; i++) o[28 + i] = c >> 8 * i;
  r.raw = o;
}
static double nomrate (int f, int m)
{
  double r = f > 0 ? f : f < 0 ? -1.0 / f : 0;
  if (m > 0) r *= m; else if (m < 0) r = -1.0 * (r / m);
  return r;
}
void set_rate2 (RefRec &r, double rate)
{
  double hz = rate < 0 ? -1.0 / rate : rate;
  r.b100 = false;
  if (hz == 0) { r.sr_f = r.sr_m = 0; r.rate = 0; return; }
  if (hz == floor (hz) && hz <= 32767) { r.sr_f = (int)hz; r.sr_m = 1; r.rate = hz; return; }
  double p = 1 / hz;
  if (fabs (p - round (p)) < 1e-9 && p < 32767) { r.sr_f = -(int)round (p); r.sr_m = 1; r.rate = nomrate (r.sr_f, 1); return; }
  r.b100 = true; r.sr_f = (int)std::max (1.0, std::min (32767.0, round (hz))); r.sr_m = 1; r.rate = (double)(float)hz;
}
static const char *DQN[] = { "AmplifierSaturation", "DigitizerClipping", "Spikes", "Glitches", "MissingData", "TelemetrySyncError", "FilterCharging" };
static const char *ION[] = { "StationVolumeParityError", "LongRecordRead", "ShortRecordRead", "StartOfTimeSeries", "EndOfTimeSeries" };
static Str numstr (double d) { return fmt ("%.17g", d); }
static size_t ev_len (int t, uint32_t seed) { switch (t) { case 200: return 52; case 201: case 300: case 310: return 60; case 320: return 64; case 390: return 28; case 395: case 400: return 16; case 405: return 6; case 500: return 200; } return 15 + seed % 90; }
// content after the type and the offset of the next blockette
static Str ev_body (const Event &e, bool be)
{
  Rng g (e.seed * 977 + e.type); Str b;
  auto u = [&] (uint64_t v, int n) { put (b, v, n, be); };
  auto fl = [&] { static const float V[] = { 0, 1, -2.5f, 0.001f, 1e20f, -1e-20f, 12345.678f, 3 }; float v = V[g.below (8)]; uint32_t x; memcpy (&x, &v, 4); u (x, 4); };
  auto tm = [&] { bool unset = g.below (12) == 0; u (unset ? 0 : 2018 + g.below (12), 2); u (1 + g.below (365), 2); b += (char)g.below (24); b += (char)g.below (60); b += (char)g.below (60); b += (char)0; u (g.below (3) ? g.below (10000) : 0, 2); };
  auto str = [&] (size_t w) { static const char C[] = "ABCxyz019 -_./:;,\"\\'{}[]"; size_t n = g.below (4) ? g.below (w + 1) : g.below (2) ? w : 0; Str s; for (size_t i = 0; i < n; i++) s += C[g.below (g.below (3) ? 17 : sizeof (C) - 1)]; if (s.size () < w && g.below (4) == 0) s += '\0'; s.resize (w, ' '); b += s; };
  auto dur = [&] { u (g.below (3) ? g.below (100000) : g.below (2) ? 0 : g.next () & 0xffffffff, 4); };
  auto by = [&] { b += (char)g.below (256); };
  switch (e.type)
  {
  case 200: case 201: fl (); fl (); fl (); by (); b += (char)0; tm (); if (e.type == 201) { bool z = g.below (3) == 0; for (int i = 0; i < 6; i++) b += (char)(z ? 0 : g.below (256)); b += (char)(g.below (3) ? g.below (3) : g.below (256)); b += (char)(g.below (3) ? g.below (2) : g.below (256)); } str (24); break;
  case 300: tm (); by (); by (); dur (); dur (); fl (); str (3); b += (char)0; dur (); str (12); str (12); break;
  case 310: tm (); b += (char)0; by (); dur (); fl (); fl (); str (3); b += (char)0; dur (); str (12); str (12); break;
  case 320: tm (); b += (char)0; by (); dur (); fl (); str (3); b += (char)0; dur (); str (12); str (12); str (8); break;
  case 390: tm (); b += (char)0; by (); dur (); fl (); str (3); b += (char)0; break;
  case 395: tm (); u (0, 2); break;
  case 400: fl (); fl (); u (g.below (60000), 2); u (0, 2); break;
  case 405: u (g.below (60000), 2); break;
  case 500: fl (); tm (); by (); by (); u (g.below (3) ? g.below (1000) : g.below (2) ? 0 : g.next () & 0xffffffff, 4); str (16); str (32); str (128); break;
  case 2000: u (ev_len (e.type, e.seed), 2); u (15, 2); u (g.below (1000), 4); b += (char)0; b += (char)0; b += (char)0; while (b.size () + 4 < ev_len (e.type, e.seed)) by (); break;
  }
  if (b.size () + 4 != ev_len (e.type, e.seed)) harness_error ("blockette %d has %zu bytes", e.type, b.size () + 4);
  return b;
}
// what a blockette at p stands for, read by the SEED manual; n: how many of each list so far
static void ev_leaves (int type, const char *p, bool be, int n[3], std::map<Str, Str> &L)
{
  auto u = [&] (int o, int w) { return (uint64_t)get (p + o, w, be); };
  auto fl = [&] (int o) { uint32_t x = u (o, 4); float f; memcpy (&f, &x, 4); return (double)f; };
  Str at;
  auto num = [&] (const char *k, double v) { L[at + k] = numstr (v); };
  auto nz = [&] (const char *k, double v) { if (v != 0) num (k, v); };
  auto txt = [&] (const char *k, const Str &v) { L[at + k] = "\"" + v + "\""; };
  auto fld = [&] (int o, int w) { Str s (p + o, strnlen (p + o, w)), q; while (s.size () && s.back () == ' ') s.pop_back (); for (char c : s) { if (c == '"' || c == '\\') q += '\\'; q += c; } return q; };
  auto str = [&] (const char *k, int o, int w) { Str s = fld (o, w); if (s.size ()) txt (k, s); };
  auto tm = [&] (const char *k, int o, int us = 0) {
    if (u (o, 2) == 0) return;
    int64_t t = cal2ns (u (o, 2), u (o + 2, 2), (uint8_t)p[o + 4], (uint8_t)p[o + 5], (uint8_t)p[o + 6], u (o + 8, 2) * 100000) + (int64_t)us * 1000;
    int y, doy, h, mi, s; uint32_t ns; ns2cal (t, y, doy, h, mi, s, ns); static const int M[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int mo = 0, d = doy;
    for (; mo < 12; mo++) { int len = M[mo] + (mo == 1 && (y % 4 == 0 && (y % 100 || y % 400 == 0))); if (d <= len) break; d -= len; }
    Str x = fmt ("%04d-%02d-%02dT%02d:%02d:%02d", y, mo + 1, d, h, mi, s); if (ns % 1000) harness_error ("event time"); if (ns) x += fmt (".%06u", ns / 1000); txt (k, x + "Z"); };
  int fg;
  switch (type)
  {
  case 200: case 201:
    at = fmt ("/FDSN/Event/Detection/%d/", n[0]++); txt ("Type", type == 200 ? "GENERIC" : "MURDOCK"); nz ("SignalAmplitude", fl (4)); nz ("SignalPeriod", fl (8)); nz ("BackgroundEstimate", fl (12)); fg = (uint8_t)p[16];
    if (type == 201 || fg & 4) txt ("Wave", fg & 1 ? "DILATATION" : "COMPRESSION");
    if (type == 200) txt ("Units", fg & 2 ? "DECONVOLVED" : "COUNTS");
    tm ("OnsetTime", 18);
    if (type == 201) { bool any = false; for (int i = 0; i < 6; i++) if (p[28 + i]) any = true; for (int i = 0; any && i < 6; i++) num (fmt ("MEDSNR/%d", i).c_str (), (uint8_t)p[28 + i]); num ("MEDLookback", (uint8_t)p[34]); num ("MEDPickAlgorithm", (uint8_t)p[35]); }
    str ("Detector", type == 200 ? 28 : 36, 24); break;
  case 300: case 310: case 320: case 390: case 395:
    at = fmt ("/FDSN/Calibration/Sequence/%d/", n[1]++); txt ("Type", type == 300 ? "STEP" : type == 310 ? "SINE" : type == 320 ? "PSEUDORANDOM" : type == 390 ? "GENERIC" : "ABORT"); tm (type == 395 ? "EndTime" : "BeginTime", 4); if (type == 395) break;
    fg = (uint8_t)p[15]; txt ("Trigger", fg & 4 ? "AUTOMATIC" : "MANUAL"); if (fg & 8) L[at + "Continued"] = "true";
    if (type == 300)
    {
      num ("Steps", (uint8_t)p[14]); if (fg & 1) L[at + "StepFirstPulsePositive"] = "true"; if (fg & 2) L[at + "StepAlternateSign"] = "true";
      nz ("Duration", u (16, 4) / 10000.0); nz ("StepBetween", u (20, 4) / 10000.0); nz ("Amplitude", fl (24)); str ("InputChannel", 28, 3); nz ("ReferenceAmplitude", u (32, 4)); str ("Coupling", 36, 12); str ("Rolloff", 48, 12); break;
    }
    nz ("Duration", u (16, 4) / 10000.0);
    if (type == 310) { if (fg & 0x70) txt ("AmplitudeRange", fg & 0x10 ? "PEAKTOPEAK" : fg & 0x20 ? "ZEROTOPEAK" : "RMS"); nz ("SinePeriod", fl (20)); nz ("Amplitude", fl (24)); str ("InputChannel", 28, 3); nz ("ReferenceAmplitude", u (32, 4)); str ("Coupling", 36, 12); str ("Rolloff", 48, 12); }
    else { nz ("Amplitude", fl (20)); str ("InputChannel", 24, 3); if (type == 320) { if (fg & 0x10) txt ("AmplitudeRange", "RANDOM"); nz ("ReferenceAmplitude", u (28, 4)); str ("Coupling", 32, 12); str ("Rolloff", 44, 12); str ("Noise", 56, 8); } }
    break;
  case 500:
    at = fmt ("/FDSN/Time/Exception/%d/", n[2]++); tm ("Time", 8, (int8_t)p[18]); if (fl (4) >= 0) num ("VCOCorrection", fl (4)); num ("ReceptionQuality", (uint8_t)p[19]); nz ("Count", u (20, 4)); str ("Type", 24, 16); str ("ClockStatus", 72, 128);
    L["/FDSN/Clock/Model"] = "\"" + fld (40, 32) + "\""; break;
  }
}
static void v2leaves (RefRec &r)
{
  r.leaves = r.evleaves;
  if (r.act & 4) r.leaves["/FDSN/Event/Begin"] = "true";
  if (r.act & 8) r.leaves["/FDSN/Event/End"] = "true";
  if (r.act & 0x10) r.leaves["/FDSN/Time/LeapSecond"] = numstr (1);
  if (r.act & 0x20) r.leaves["/FDSN/Time/LeapSecond"] = numstr (-1);
  if (r.act & 0x40) r.leaves["/FDSN/Event/InProgress"] = "true";
  for (int i = 0; i < 5; i++) if (r.io & 1 << i) r.leaves[Str ("/FDSN/Flags/") + ION[i]] = "true";
  for (int i = 0; i < 7; i++) if (r.dq & 1 << i) r.leaves[Str ("/FDSN/Flags/") + DQN[i]] = "true";
  if (r.timecorr) r.leaves["/FDSN/Time/Correction"] = numstr (r.timecorr / 10000.0);
  if (r.b1001) r.leaves["/FDSN/Time/Quality"] = numstr (r.tq < 0 ? 0 : r.tq);
  r.flags = (r.act & 1 ? 1 : 0) | (r.io & 0x20 ? 4 : 0) | (r.dq & 0x80 ? 2 : 0);
}
bool encode2 (RefRec &r)
{
  bool be = r.be, pbe = r.payload_be < 0 ? be : r.payload_be;
  if (!r.b1000) pbe = be;
  // time: fixed field holds 0.1 ms, B1001 the rest
  int64_t eff = r.start;
  if (r.timecorr && !(r.act & 2)) eff -= (int64_t)r.timecorr * 100000;
  int64_t us = eff / 1000;
  if (eff % 1000) harness_error ("v2 time not in microseconds");
  int64_t tick = us / 100; int rest = us % 100;
  if (rest) r.b1001 = true;
  if (rest > 49 || (r.b1001 && rest && r.blk_order & 8)) { rest -= 100; tick++; if (rest < -50) { rest += 100; tick--; } }
  int y, doy, h, mi, s; uint32_t ns; ns2cal (tick * 100000, y, doy, h, mi, s, ns);
  Str B; std::vector<int> order;
  if (r.blk_order & 1) { if (r.b100) order.push_back (100); if (r.b1001) order.push_back (1001); if (r.b1000) order.push_back (1000); }
  else { if (r.b1000) order.push_back (1000); if (r.b1001) order.push_back (1001); if (r.b100) order.push_back (100); }
  // the others stand first, last or between them
  for (size_t k = 0; k < r.ev.size (); k++) order.insert (order.begin () + (r.ev[0].seed / 7 + k) % (order.size () + 1), -1);
  { size_t k = 0; for (auto &o : order) if (o < 0) o = -1 - (int)k++; }
  int evn[3] = { 0, 0, 0 }; r.evleaves.clear ();
  int nb = order.size (), off = 48 + (r.blk_order & 2 ? 8 : 0);
  int first = nb ? off : 0;
  std::vector<Str> bl;
  int pos = off;
  int lenpos = -1;
  for (int i = 0; i < nb; i++)
  {
    Str b; const Event *e = order[i] < 0 ? &r.ev[-1 - order[i]] : NULL; int t = e ? e->type : order[i], len = e ? ev_len (t, e->seed) : t == 100 ? 12 : 8;
    put (b, t, 2, be); put (b, i + 1 < nb ? pos + len : 0, 2, be);
    if (e) { b += ev_body (*e, be); ev_leaves (t, b.data (), be, evn, r.evleaves); }
    else if (t == 1000) { b += (char)r.enc; b += (char)(pbe ? 1 : 0); lenpos = pos + 6; b += (char)0; b += (char)0; }
    else if (t == 1001) { b += (char)(r.tq < 0 ? 0 : r.tq); b += (char)rest; b += (char)0; b += (char)(r.enc == 10 || r.enc == 11 ? 1 : 0); }
    else { float f = (float)r.rate; uint32_t x; memcpy (&x, &f, 4); put (b, x, 4, be); b += Str (4, '\0'); }
    pos += len; B += b;
  }
  int hdrend = pos;
  int doff = (hdrend + 63) / 64 * 64;
  if ((r.enc < 10) && (r.blk_order & 4)) doff = (hdrend + 7) / 8 * 8;
  size_t n = r.s.n ();
  if (n > 65535) return false;
  int lo = r.reclen_exp ? r.reclen_exp : 7, hi = r.reclen_exp ? r.reclen_exp : 17;
  for (int e = lo; e <= hi; e++)
  {
    size_t L = (size_t)1 << e;
    if ((size_t)doff + (n ? 1 : 0) > L || (size_t)hdrend > L) continue;
    Str pl;
    if (n && enc_pl (r, 0, L - doff, pbe, pl) != n) continue;
    Str o = fmt ("%06d", (int)(r.steim_seed % 1000000)); // sequence number
    o += "DRQM"[r.pubver == 1 ? 1 : r.pubver == 2 ? 0 : r.pubver == 3 ? 2 : 3]; o += r.rsv;
    auto fld = [&] (const Str &v, size_t w) { Str t = v; t.resize (w, ' '); o += t; };
    fld (r.sta, 5); fld (r.loc, 2); fld (r.chan, 3); fld (r.net, 2);
    put (o, y, 2, be); put (o, doy, 2, be); o += (char)h; o += (char)mi; o += (char)s; o += (char)0; put (o, ns / 100000, 2, be);
    put (o, n, 2, be); put (o, (uint16_t)r.sr_f, 2, be); put (o, (uint16_t)r.sr_m, 2, be);
    o += (char)r.act; o += (char)r.io; o += (char)r.dq; o += (char)nb;
    put (o, (uint32_t)r.timecorr, 4, be); put (o, n ? doff : 0, 2, be); put (o, first, 2, be);
    o.resize (off, 0); o += B;
    o.resize (doff, 0);
    o += pl;
    o.resize (L, 0);
    if (lenpos >= 0) o[lenpos] = (char)e;
    r.raw = o; r.dataoff = n ? doff : 0; r.datalen = n ? L - doff : 0;
    v2leaves (r);
    return true;
  }
  return false;
}
bool build (RefRec &r) { if (r.fmt == 3) { encode3 (r); return true; } return encode2 (r); }

// ------------------------------------------------------------------ JSON
struct JP { const char *p, *e; bool ok = true; std::map<Str, Str> *out;
  void ws () { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
  Str str () { Str s; if (p >= e || *p != '"') { ok = false; return s; } p++; while (p < e && *p != '"') { if (*p == '\\' && p + 1 < e) { s += *p++; } s += *p++; } if (p >= e) ok = false; else p++; return s; }
  void val (const Str &path)
  {
    ws ();
    if (p >= e) { ok = false; return; }
    if (*p == '{') { p++; ws (); if (p < e && *p == '}') { p++; return; } while (ok) { ws (); Str k = str (); ws (); if (p >= e || *p != ':') { ok = false; return; } p++; val (path + "/" + k); ws (); if (p < e && *p == ',') { p++; continue; } if (p < e && *p == '}') { p++; return; } ok = false; } return; }
    if (*p == '[') { p++; ws (); int i = 0; if (p < e && *p == ']') { p++; return; } while (ok) { val (path + fmt ("/%d", i++)); ws (); if (p < e && *p == ',') { p++; continue; } if (p < e && *p == ']') { p++; return; } ok = false; } return; }
    if (*p == '"') { Str s = str (); (*out)[path] = "\"" + s + "\""; return; }
    Str t; while (p < e && !strchr (",}] \n", *p)) t += *p++;
    if (t == "true" || t == "false" || t == "null") { (*out)[path] = t; return; }
    char *q; double d = strtod (t.c_str (), &q); if (t.empty () || *q) { ok = false; return; }
    (*out)[path] = numstr (d);
  } };
bool flatten_json (const Str &s, std::map<Str, Str> &leaves)
{
  leaves.clear ();
  if (s.empty ()) return true;
  JP j; j.p = s.data (); j.e = s.data () + s.size (); j.out = &leaves; j.val (""); j.ws ();
  return j.ok && j.p == j.e;
}

// ------------------------------------------------------------------ decoder
size_t decode_rec (const char *p, size_t n, RefRec &r, Str *why)
{
  auto bad = [&] (const Str &w) -> size_t { if (why) *why = w; return 0; };
  r = RefRec ();
  if (n >= 40 && p[0] == 'M' && p[1] == 'S' && p[2] == 3)
  {
    size_t sl = (uint8_t)p[33], el = get (p + 34, 2, false), dl = get (p + 36, 4, false);
    size_t L = 40 + sl + el + dl;
    if (L > n) return bad (fmt ("truncated: length %zu of %zu", L, n));
    Str raw (p, L); uint32_t c = get (p + 28, 4, false); memset (&raw[28], 0, 4);
    if (crc32c_ref (raw.data (), L) != c) return bad ("bad CRC");
    r.fmt = 3; r.raw = Str (p, L); r.flags = (uint8_t)p[3]; r.enc = (uint8_t)p[15]; r.pubver = (uint8_t)p[32];
    int y = get (p + 8, 2, false), doy = get (p + 10, 2, false); uint32_t ns = get (p + 4, 4, false);
    if (doy < 1 || doy > 366 || (uint8_t)p[12] > 23 || (uint8_t)p[13] > 59 || (uint8_t)p[14] > 60 || ns > 999999999) return bad ("bad time field");
    r.start = cal2ns (y, doy, p[12], p[13], p[14], ns);
    uint64_t rb = get (p + 16, 8, false); memcpy (&r.rate, &rb, 8);
    size_t ns_ = get (p + 24, 4, false);
    r.sid = Str (p + 40, sl); r.extra = Str (p + 40 + sl, el); r.dataoff = 40 + sl + el; r.datalen = dl;
    if (ns_ > (1u << 26)) return bad ("implausible sample count");
    if (!dec_payload (r.enc, Str (p + r.dataoff, dl), ns_, r.enc == 10 || r.enc == 11, r.s)) return bad ("payload does not decode to the stated number of samples");
    return L;
  }
  if (n < 64) return bad ("not a record");
  for (int i = 0; i < 6; i++) if (!(isdigit ((uint8_t)p[i]) || p[i] == ' ' || !p[i])) return bad ("not a record");
  if (!strchr ("DRQM", p[6])) return bad ("not a record");
  bool be;
  auto okyd = [&] (bool b) { int y = get (p + 20, 2, b), d = get (p + 22, 2, b); return y >= 1900 && y <= 2100 && d >= 1 && d <= 366; };
  if (okyd (true)) be = true; else if (okyd (false)) be = false; else return bad ("bad year/day");
  r.fmt = 2; r.be = be; r.pubver = p[6] == 'R' ? 1 : p[6] == 'D' ? 2 : p[6] == 'Q' ? 3 : 4;
  auto fld = [&] (int o, int w) { Str s (p + o, w); while (!s.empty () && (s.back () == ' ' || s.back () == 0)) s.pop_back (); return s; };
  r.sta = fld (8, 5); r.loc = fld (13, 2); r.chan = Str (p + 15, 3); r.net = fld (18, 2);
  r.sid = "FDSN:" + r.net + "_" + r.sta + "_" + r.loc + "_" + r.chan.substr (0, 1) + "_" + r.chan.substr (1, 1) + "_" + r.chan.substr (2, 1);
  size_t cnt = get (p + 30, 2, be); r.sr_f = (int16_t)get (p + 32, 2, be); r.sr_m = (int16_t)get (p + 34, 2, be);
  r.rate = nomrate (r.sr_f, r.sr_m);
  r.act = (uint8_t)p[36]; r.io = (uint8_t)p[37]; r.dq = (uint8_t)p[38]; int nb = (uint8_t)p[39];
  r.timecorr = (int32_t)get (p + 40, 4, be); size_t doff = get (p + 44, 2, be), bo = get (p + 46, 2, be);
  if ((uint8_t)p[24] > 23 || (uint8_t)p[25] > 59 || (uint8_t)p[26] > 60 || get (p + 28, 2, be) > 9999) return bad ("bad time field");
  int64_t t = cal2ns (get (p + 20, 2, be), get (p + 22, 2, be), p[24], p[25], p[26], get (p + 28, 2, be) * 100000);
  if (r.timecorr && !(r.act & 2)) t += (int64_t)r.timecorr * 100000;
  r.b1000 = r.b1001 = r.b100 = false; r.enc = -1; size_t L = 0; int seen = 0; bool pbe = be; int evn[3] = { 0, 0, 0 };
  while (bo)
  {
    if (bo < 48 || bo + 4 > n) return bad ("blockette chain broken");
    int ty = get (p + bo, 2, be); size_t nx = get (p + bo + 2, 2, be); seen++; if (bo + (ty == 100 ? 12 : ty == 1000 || ty == 1001 ? 8 : 4) > n) return bad ("blockette chain broken");
    if (ty == 1000) { r.b1000 = true; r.enc = (uint8_t)p[bo + 4]; pbe = p[bo + 5]; r.payload_be = pbe; r.reclen_exp = (uint8_t)p[bo + 6]; if (r.reclen_exp < 7 || r.reclen_exp > 20) return bad ("bad record length exponent"); L = (size_t)1 << r.reclen_exp; }
    else if (ty == 1001) { r.b1001 = true; r.tq = (uint8_t)p[bo + 4]; t += (int64_t)(int8_t)p[bo + 5] * 1000; }
    else if (ty == 100) { r.b100 = true; uint32_t x = get (p + bo + 4, 4, be); float f; memcpy (&f, &x, 4); r.rate = f; }
    else if (ty >= 200 && ty <= 500 && bo + ev_len (ty, 0) <= n) ev_leaves (ty, p + bo, be, evn, r.evleaves);
    if (nx && nx <= bo) return bad ("blockette chain loops");
    bo = nx;
  }
  if (seen != nb) return bad ("blockette count differs from chain");
  if (!r.b1000) return bad ("no blockette 1000");
  if (L > n) return bad (fmt ("truncated: length %zu of %zu", L, n));
  if (cnt && (doff < 48 || doff > L)) return bad ("bad data offset");
  r.start = t; r.raw = Str (p, L); r.dataoff = doff; r.datalen = doff ? L - doff : 0; v2leaves (r);
  if (cnt && !dec_payload (r.enc, Str (p + doff, L - doff), cnt, pbe, r.s)) return bad ("payload does not decode to the stated number of samples");
  if (!cnt) r.s.type = api_sampletype (r.enc);
  return L;
}
bool decode_all (const Str &b, std::vector<RefRec> &v, Str *why)
{
  size_t o = 0;
  while (o < b.size ())
  {
    RefRec r; Str w; size_t n = decode_rec (b.data () + o, b.size () - o, r, &w);
    if (!n) { if (why) *why = fmt ("at byte %zu of %zu: ", o, b.size ()) + w; return false; }
    v.push_back (r); o += n;
  }
  return true;
}

// ------------------------------------------------------------------ generation
Str sid_for (int k, RefRec *r)
{
  static const char *N[][4] = { { "XX", "AAA", "", "BHZ" }, { "XX", "AAA", "00", "BHN" }, { "YY", "BB", "10", "LHZ" }, { "IU", "ABCDE", "00", "HNE" }, { "X", "C", "", "VM1" }, { "XX", "AAA", "00", "BHZ" }, { "ZZ", "Q1", "A1", "EHZ" }, { "XX", "AAB", "", "BHZ" } };
  const char **n = N[k % 8];
  Str sta = n[1]; if (k >= 8) sta = sta.substr (0, 3) + fmt ("%d", k / 8);
  if (r) { r->net = n[0]; r->sta = sta; r->loc = n[2]; r->chan = n[3]; }
  return Str ("FDSN:") + n[0] + "_" + sta + "_" + n[2] + "_" + n[3][0] + "_" + n[3][1] + "_" + n[3][2];
}
Samples gen_samples (char type, size_t n, int mag)
{
  Samples s; s.type = type; Rng r = bulk ();
  static const int M[] = { 7, 100, 15000, 500000, 200000000, 0 };
  int64_t cur = 0; int w = 4;
  if (type == 't') { for (size_t i = 0; i < n; i++) s.t += (char)(32 + r.below (95)); return s; }
  for (size_t i = 0; i < n; i++)
  {
    if (mag == 7)
    { // the whole range of values
      static const int32_t X[] = { 0, 1, -1, INT32_MAX, INT32_MIN, 1 << 29, -(1 << 29), 1 << 30 }; static const double Y[] = { 0.0, -0.0, 1e-40, -1e38, 1e300, HUGE_VAL, -HUGE_VAL, NAN };
      uint64_t z = r.next (); bool ex = r.below (4) == 0;
      if (type == 'i') s.i.push_back (ex ? X[r.below (8)] : (int32_t)z);
      else if (type == 'f') { float f; uint32_t w = (uint32_t)z; memcpy (&f, &w, 4); if (std::isnan (f)) f = 1; s.f.push_back (ex ? (float)Y[r.below (8)] : f); }
      else { double d; memcpy (&d, &z, 8); if (std::isnan (d)) d = 1; s.d.push_back (ex ? Y[r.below (8)] : d); }
      continue;
    }
    if (mag == 8)
    { // differences at the limits of the widths that encodings know, in stretches of one width
      static const int W[] = { 4, 5, 6, 8, 10, 15, 16, 30 };
      if (i == 0 || r.below (9) == 0) w = W[r.below (8)];
      int64_t h = 1LL << (w - 1), step; switch (r.below (6)) { case 0: step = h - 1; break; case 1: step = -h; break; case 2: step = h; break; case 3: step = -h - 1; break; case 4: step = 0; break; default: step = (int64_t)r.below (2 * h) - h; }
      if (w == 30) step = std::max<int64_t> (std::min<int64_t> (step, h - 1), -h);
      if (cur + step > 500000000 || cur + step < -500000000) step = cur > 0 ? -(step < 0 ? 0 : step > h - 1 ? h - 1 : step) : (step < 0 ? (step < -h + 1 ? h - 1 : -step) : step);
      if (cur + step > 500000000 || cur + step < -500000000) step = 0;
      cur += step;
      if (type == 'i') s.i.push_back ((int32_t)cur); else if (type == 'f') s.f.push_back ((float)cur); else s.d.push_back ((double)cur);
      continue;
    }
    int m = mag == 6 ? M[r.below (5)] : M[mag % 6];
    int64_t lim = mag <= 2 ? 32000 : 400000000;
    int64_t step = m ? (int64_t)r.below (2 * m + 1) - m : 0;
    cur += step; if (cur > lim || cur < -lim) cur -= 2 * step;
    if (cur > lim) cur = lim;
    if (cur < -lim) cur = -lim;
    if (type == 'i') s.i.push_back ((int32_t)cur);
    else if (type == 'f') s.f.push_back ((float)cur * 0.37f);
    else s.d.push_back ((double)cur * 0.123456789 + (double)r.below (1000) / 7.0);
  }
  return s;
}
Samples slice (const Samples &s, size_t from, size_t n)
{
  Samples o; o.type = s.type;
  if (s.type == 'i') o.i.assign (s.i.begin () + from, s.i.begin () + from + n);
  else if (s.type == 'f') o.f.assign (s.f.begin () + from, s.f.begin () + from + n);
  else if (s.type == 'd') o.d.assign (s.d.begin () + from, s.d.begin () + from + n);
  else o.t = s.t.substr (from, n);
  return o;
}
void append (Samples &a, const Samples &b)
{
  if (!a.type) a.type = b.type;
  a.i.insert (a.i.end (), b.i.begin (), b.i.end ()); a.f.insert (a.f.end (), b.f.begin (), b.f.end ()); a.d.insert (a.d.end (), b.d.begin (), b.d.end ()); a.t += b.t;
}
static Str gen_extra (size_t max)
{
  switch (choose (6))
  {
  case 5: return "{\"a:b\":[{\"q\":\"x\\\"y:{,\\\\\",\"r\":[1,2.5,true]},null],\"FDSN\":{\"Time\":{\"Quality\":99}}}";
  case 0: return "{\"FDSN\":{\"Time\":{\"Quality\":100}}}";
  case 1: return "{}";
  case 2: return fmt ("{\"X\":%u}", choose (100000));
  case 3: return "{\"FDSN\":{\"Event\":{\"Begin\":true},\"Note\":\"" + Str (logsize (400), 'n') + "\"}}";
  default: { size_t n = logsize (std::min<size_t> (max, 60000)); return "{\"Big\":\"" + Str (n, 'b') + "\"}"; }
  }
}
RefRec make_piece (const RefRec &t, int64_t start, const Samples &s)
{
  RefRec r = t; r.start = start; r.s = s; r.raw.clear ();
  if (r.fmt == 2) { r.start = start / 1000 * 1000; r.reclen_exp = 0; }
  if (!build (r)) harness_error ("cannot build piece");
  return r;
}
RefRec gen_record (const GenOpt &o)
{
  for (int tries = 0;; tries++)
  {
    RefRec r;
    if (o.v3 && o.v2) r.fmt = choose (2) ? 2 : 3; else r.fmt = o.v2 ? 2 : 3;
    int k = choose (o.sidpool);
    r.sid = sid_for (k, &r);
    if (r.fmt == 3 && o.sidpool > 3 && choose (12) == 11) { int z = choose (3); r.sid = z == 0 ? "XFDSN:odd/id" : z == 1 ? Str ("FDSN:") + Str (58, 'L') : "A"; }
    std::vector<int> encs = { 3, 11, 10, 1, 4, 5 };
    if (!o.steim) encs = { 3, 1, 4, 5 };
    if (o.text) encs.push_back (0);
    if (o.legacy && choose (5) == 4) encs = { 12, 13, 14, 16, 30, 32 };
    r.enc = encs[choose (encs.size ())];
    static const double rates[] = { 1, 20, 100, 40, -10, 0.1, 200, -60, 0.05, 1000, 33.333333, 2.5 };
    double rate = rates[choose (o.bigrate ? 12 : 4)];
    size_t n = o.zero ? logsize (o.max_samples) : 1 + logsize (o.max_samples - 1);
    if (o.zero && choose (12) == 11) n = 0;
    int mag = r.enc == 1 ? choose (3) : r.enc == 3 || r.enc == 4 || r.enc == 5 ? choose (8) : r.enc == 10 ? choose (9) : r.enc == 11 ? (choose (3) == 2 ? 8 : choose (7)) : choose (7);
    r.s = gen_samples (api_sampletype (r.enc), n, mag);
    if (r.enc > 11)
    {
      Rng g = bulk (); r.s = Samples (); r.s.type = api_sampletype (r.enc);
      for (size_t i = 0; i < n; i++)
      {
        static const int K[] = { 0, 2, 4, 7 };
        switch (r.enc) { case 12: r.s.f.push_back ((float)((int)g.below (1 << 24) - (1 << 23))); break; case 13: case 14: r.s.f.push_back ((float)ldexp ((int)g.below (4096) - 2048, -(int)g.below (r.enc == 13 ? 8 : 16))); break;
          case 16: r.s.i.push_back (((int)g.below (16384) - 8191) * (1 << K[g.below (4)])); break; case 30: r.s.i.push_back (((int)g.below (4096) - 2048) * (1 << g.below (11))); break; default: r.s.i.push_back ((int)g.below (65536) - 32768); }
      }
    }
    r.pubver = r.fmt == 3 ? 1 + choose (4) : 1 + choose (4);
    if (r.enc == 0 && choose (2)) rate = 0;
    r.start = some_time (r.fmt, cal2ns (2019 + choose (6), 1 + choose (365), choose (24), choose (60), choose (60), 0));
    if (o.odd_times) { int z = choose (4); r.start += z == 0 ? 0 : z == 1 ? (int64_t)choose (10000) * 100000 : z == 2 ? (int64_t)choose (1000000) * 1000 : r.fmt == 3 ? (int64_t)choose (1000000000) : (int64_t)choose (1000000) * 1000; }
    r.steim_style = choose (3); r.steim_seed = choose (1000000);
    if (r.fmt == 3)
    {
      r.rate = rate; r.flags = o.extras ? choose (8) : 0;
      if (o.extras && choose (3) == 2) r.extra = gen_extra (o.max_len / 2);
      if (o.extras && choose (16) == 15) r.pubver = choose (256);
      encode3 (r);
      if (r.raw.size () > o.max_len && tries < 20) continue;
      return r;
    }
    set_rate2 (r, rate);
    r.be = choose (3) != 2; r.payload_be = choose (4) == 3 ? choose (2) : -1;
    r.blk_order = choose (16);
    if (choose (8) == 7) r.rsv = 0;
    if (o.events && o.extras && choose (4) == 3) { static const int T[] = { 200, 201, 300, 310, 320, 390, 395, 400, 405, 500, 2000 }; int k = 1 + choose (4); for (int i = 0; i < k; i++) { Event e; e.type = T[choose (11)]; e.seed = choose (1000000); r.ev.push_back (e); } probe ("event-blockettes"); }
    if (choose (3) == 2) { r.b1001 = true; r.tq = choose (101); }
    if (o.extras && choose (3) == 2) { r.act = choose (128) & ~0x80; if ((r.act & 0x30) == 0x30) r.act &= ~0x20; r.io = choose (64); r.dq = choose (256); }
    if (o.extras && choose (6) == 5) r.timecorr = (int)choose (20001) - 10000;
    if (o.extras && !r.timecorr && choose (12) == 11)
    {
      r.timecorr = choose (2) ? (int32_t)(range (0, 0x7fffffff)) : -(int32_t)(range (0, 0x7fffffff));
      int y, doy, h, mi, s; uint32_t ns; ns2cal (r.start - (int64_t)r.timecorr * 100000, y, doy, h, mi, s, ns);
      if (y <= 1900 || y >= 2100) r.timecorr = 0; else probe ("large-time-correction");
    }
    if (!(r.timecorr) && (r.act & 2)) r.act &= ~2;
    if (o.nob1000 && choose (3) == 2) { r.b1000 = false; r.payload_be = -1; if (r.enc != 10) { if (!o.steim) r.b1000 = true; else { r.enc = 10; r.s = gen_samples ('i', n, mag); } } }
    int ex = choose (6); r.reclen_exp = ex == 0 ? 0 : 6 + ex;
    if (!encode2 (r)) { r.reclen_exp = 0; if (!encode2 (r)) { if (tries < 20) continue; harness_error ("cannot build v2 record"); } }
    if (r.raw.size () > o.max_len && tries < 20) continue;
    return r;
  }
}
Stream gen_stream (const GenOpt &o, int maxrec)
{
  Stream s; int n = 1 + choose (maxrec);
  for (int i = 0; i < n; i++) s.add (gen_record (o));
  return s;
}

// ------------------------------------------------------------------ captured records
bool capture_nul = false;
Got capture (const MS3Record *m, int64_t off)
{
  Got g; g.sid = m->sid; if (m->record) g.raw = Str (m->record, m->reclen);
  g.reclen = m->reclen; g.fmt = m->formatversion; g.flags = m->flags; g.start = m->starttime; g.rate = m->samprate; g.enc = m->encoding; g.pubver = m->pubversion;
  g.cnt = m->samplecnt; g.crc = m->crc; g.datalen = m->datalength; g.hasextra = m->extra != NULL;
  if (m->extra) { if (capture_nul ? m->extra[m->extralength] != 0 : strnlen (m->extra, m->extralength + 1) != m->extralength) violate ("record:extra-termination", "extra headers are not a string of the stated length %d", m->extralength); g.extra = Str (m->extra, m->extralength); }
  g.stype = m->sampletype; g.num = m->numsamples;
  if (m->numsamples > 0)
  {
    if (!m->datasamples) violate ("record:samples-missing", "numsamples is %lld but there is no sample buffer", (long long)m->numsamples);
    int sz = ms_samplesize (m->sampletype);
    if ((uint64_t)m->numsamples * sz > m->datasize) violate ("record:datasize", "datasize %llu is less than %lld samples of %d bytes", (unsigned long long)m->datasize, (long long)m->numsamples, sz);
    g.samples = Str ((const char *)m->datasamples, m->numsamples * sz);
  }
  g.end = msr3_endtime (m); g.off = off;
  return g;
}
Str describe (const Got &g) { return fmt ("%s v%d start %lld rate %g samples %lld enc %d len %d off %lld", g.sid.c_str (), g.fmt, (long long)g.start, g.rate, (long long)g.cnt, g.enc, g.reclen, (long long)g.off); }
Str describe (const RefRec &r) { return fmt ("%s v%d start %lld rate %g samples %lld enc %d len %zu", r.sid.c_str (), r.fmt, (long long)r.start, r.rate, (long long)r.nsamp (), r.enc, r.raw.size ()); }
Str diff_got (const Got &a, const RefRec &r, int64_t off, bool unp, bool checkoff)
{
  if (a.sid != r.sid) return fmt ("source id '%s' instead of '%s'", a.sid.c_str (), r.sid.c_str ());
  if (a.reclen != (int)r.raw.size ()) return fmt ("length %d instead of %zu", a.reclen, r.raw.size ());
  if (a.raw != r.raw) { size_t i = 0; while (i < a.raw.size () && a.raw[i] == r.raw[i]) i++; return fmt ("raw bytes differ at byte %zu", i); }
  if (checkoff && a.off != off) return fmt ("offset %lld instead of %lld", (long long)a.off, (long long)off);
  if (a.fmt != r.fmt) return fmt ("format version %d instead of %d", a.fmt, r.fmt);
  if (a.flags != r.flags) return fmt ("flags 0x%x instead of 0x%x", a.flags, r.flags);
  if (a.start != r.start) return fmt ("start time %lld instead of %lld", (long long)a.start, (long long)r.start);
  if (a.rate != r.rate) return fmt ("rate %.12g instead of %.12g", a.rate, r.rate);
  if (llabs (a.end - r.end ()) > 1) return fmt ("end time %lld instead of %lld", (long long)a.end, (long long)r.end ());
  int enc = r.enc; if (r.fmt == 2 && !r.b1000) enc = unp && r.nsamp () ? 10 : -1;
  if (a.enc != enc) return fmt ("encoding %d instead of %d", a.enc, enc);
  if (a.pubver != r.pubver) return fmt ("publication version %d instead of %d", a.pubver, r.pubver);
  if (a.cnt != r.nsamp ()) return fmt ("sample count %lld instead of %lld", (long long)a.cnt, (long long)r.nsamp ());
  if (a.datalen != r.datalen) return fmt ("data length %u instead of %u", a.datalen, r.datalen);
  if (r.fmt == 3) { if (a.extra != r.extra) return fmt ("extra headers '%.60s' instead of '%.60s'", a.extra.c_str (), r.extra.c_str ()); if (a.crc != get (r.raw.data () + 28, 4, false)) return "CRC field differs"; }
  else
  {
    std::map<Str, Str> l;
    if (!flatten_json (a.extra, l)) return fmt ("extra headers are not JSON: '%.80s'", a.extra.c_str ());
    if (l != r.leaves) { Str s; for (auto &x : l) if (!r.leaves.count (x.first) || r.leaves.at (x.first) != x.second) s += x.first + "=" + x.second + " "; s += "instead of "; for (auto &x : r.leaves) if (!l.count (x.first) || l.at (x.first) != x.second) s += x.first + "=" + x.second + " "; return "extra headers " + s; }
  }
  if (unp)
  {
    if (a.num != r.nsamp ()) return fmt ("%lld decoded samples instead of %lld", (long long)a.num, (long long)r.nsamp ());
    if (r.nsamp ()) { if (a.stype != r.s.type) return fmt ("sample type '%c' instead of '%c'", a.stype, r.s.type); if (a.samples != r.s.bytes ()) { Str b = r.s.bytes (); size_t i = 0; while (i < b.size () && i < a.samples.size () && a.samples[i] == b[i]) i++; return fmt ("decoded samples differ at byte %zu of %zu", i, b.size ()); } }
  }
  else if (a.num != 0) return fmt ("%lld samples although unpacking was not requested", (long long)a.num);
  return "";
}
Str diff_gg (const Got &a, const Got &b)
{
  if (a.sid != b.sid) return "source id"; if (a.raw != b.raw) return "raw bytes"; if (a.reclen != b.reclen) return "length"; if (a.off != b.off) return fmt ("offset %lld vs %lld", (long long)a.off, (long long)b.off);
  if (a.fmt != b.fmt || a.flags != b.flags || a.start != b.start || a.rate != b.rate || a.enc != b.enc || a.pubver != b.pubver || a.cnt != b.cnt || a.crc != b.crc || a.datalen != b.datalen || a.end != b.end) return "header fields";
  if (a.extra != b.extra || a.hasextra != b.hasextra) return "extra headers";
  if (a.num != b.num) return "decoded sample count"; if (a.num && (a.stype != b.stype || a.samples != b.samples)) return "decoded samples";
  return "";
}

// ------------------------------------------------------------------ sources
const char *kindname (SrcKind k) { static const char *n[] = { "file", "stdin", "fd", "url" }; return n[k]; }
Str any_name (const Str &base)
{
  switch (choose (16)) { case 9: return "-" + base; case 10: return "--"; case 11: return base + "@x"; case 12: return "dir@1/" + base; case 13: return base + ":/x"; case 14: return "-@"; case 15: return base + " %s%n " + base; default: return base; }
}
Source make_source (SrcKind k, const Str &bytes, const Str &name, bool plan)
{
  Source s; s.kind = k; s.name = name;
  if (k == SRC_URL)
  {
    s.path = "http://sim.host/" + name;
    Server &v = server (s.path); v = Server (); v.body = bytes;
    if (plan) { random_schedule (v); if (choose (6) == 5) v.redirects = 1 + choose (2); v.long_header = choose (5) == 4; v.trailer_range = choose (6) == 5; }
    return s;
  }
  File &f = file (name); f = File (); f.data = bytes;
  if (plan) f.rp = random_read_plan ();
  s.path = name;
  if (k == SRC_STDIN) { f.is_pipe = true; s.path = "-"; set_stdin (name); }
  else if (k == SRC_FD) { f.is_pipe = plan && choose (2); s.path = "FD"; }
  else if (plan && choose (8) == 7) s.path = "file://" + name;
  return s;
}
const char *codename (int c)
{
  switch (c) { case 1: return "ENDOFFILE"; case 0: return "NOERROR"; case -1: return "GENERROR"; case -2: return "NOTSEED"; case -3: return "WRONGLENGTH"; case -4: return "OUTOFRANGE"; case -5: return "UNKNOWNFORMAT"; case -6: return "STBADCOMPFLAG"; case -7: return "INVALIDCRC"; case -8: return "NOMEMORY"; }
  return "?";
}
ReadOut read_all (Source &src, uint32_t flags, const MS3Selections *sel, int maxrec, int api)
{
  ReadOut o; MS3FileParam *msfp = NULL; MS3Record *msr = NULL;
  if (src.msfp) { msfp = src.msfp; src.msfp = NULL; }
  else if (src.kind == SRC_FD)
  {
    int fd = make_fd (src.name);
    msfp = ms3_mstl_init_fd (fd);
    if (!msfp) { o.code = MS_GENERROR; return o; }
  }
  bool global = api == 1 && !sel && !msfp;
  while (maxrec < 0 || (int)o.recs.size () < maxrec)
  {
    o.calls++;
    int rc = global ? ms3_readmsr (&msr, src.path.c_str (), flags, 0) : sel ? ms3_readmsr_selection (&msfp, &msr, src.path.c_str (), flags, sel, 0) : ms3_readmsr_r (&msfp, &msr, src.path.c_str (), flags, 0);
    o.code = rc;
    if (!global && msfp) { o.streampos = msfp->streampos; o.recordcount = msfp->recordcount; }
    if (rc != MS_NOERROR) { if (msr) violate ("reader:record-on-error", "a record is returned along with code %s", codename (rc)); break; }
    if (!msr) violate ("reader:no-record", "success without a record");
    o.recs.push_back (capture (msr, global ? -1 : msfp->streampos - msr->reclen));
    if (o.recs.size () > 100000) violate ("reader:runaway", "more than 100000 records from a small source");
  }
  log ("read %s: %zu records, code %s", src.path.c_str (), o.recs.size (), codename (o.code));
  for (auto &g : o.recs) { hashs (g.sid); hashs (g.raw); hashs (g.samples); hash (&g.off, 8); }
  if (global) ms3_readmsr (&msr, NULL, flags, 0);
  else ms3_readmsr_r (&msfp, &msr, NULL, flags, 0);
  return o;
}
Str LogCapture::out, LogCapture::diag;
void LogCapture::reset () { out.clear (); diag.clear (); }
static void lc_out (const char *s) { if (LogCapture::out.size () < (8 << 20)) LogCapture::out += s; }
static void lc_diag (const char *s) { if (LogCapture::diag.size () < (1 << 20)) LogCapture::diag += s; }
static void lc_null (const char *) {}
void quiet_logs () { ms_rloginit (lc_null, "", lc_null, "", 0); }
void capture_logs () { LogCapture::reset (); ms_rloginit (lc_out, NULL, lc_diag, NULL, 0); }

void tune_buffer (size_t need)
{
  if (need < 64) need = 64;
  if (need > 10485760) harness_error ("record too long");
  switch (choose (6))
  {
  case 0: case 1: libmseed_sim_maxreclen = 10485760; break;
  case 2: libmseed_sim_maxreclen = std::min<size_t> (10485760, need + choose (200)); break;
  case 3: libmseed_sim_maxreclen = std::min<size_t> (10485760, need); break;
  case 4: libmseed_sim_maxreclen = std::min<size_t> (10485760, std::max<size_t> (need, 512) * (2 + choose (3))); break;
  default: libmseed_sim_maxreclen = std::min<size_t> (10485760, std::max<size_t> (need, 65536)); break;
  }
}
void sim_setup (int knobs)
{
  quiet_logs ();
  if (!knobs) return;
  static const size_t pre[] = { 0, 0, 1048576, 1, 100, 4096, 65536 };
  int p = choose (7);
  libmseed_prealloc_block_size = pre[p];
  int f = choose (4);
  alloc_fill (f == 0 ? -1 : f == 1 ? 0 : f == 2 ? 0xff : 0xa5);
  if (choose (3) == 2) install_allocator ();
}
Str seginfo (const MS3TraceList *l)
{
  Str s;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
    for (MS3TraceSeg *g = id->first; g; g = g->next) s += fmt ("%s v%d %lld..%lld n=%lld rate=%g;", id->sid, id->pubversion, (long long)g->starttime, (long long)g->endtime, (long long)g->samplecnt, g->samprate);
  return s;
}
