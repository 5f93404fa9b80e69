// C21: edits of extra headers, in any history, make the document they say
#include "scn.h"
using namespace sim;

// ---- a document --------------------------------------------------------------
struct J
{
  char t = 'N'; double d = 0; int64_t i = 0; bool b = false; Str s; std::vector<std::pair<Str, J>> o; std::vector<J> a; // N null, T boolean, i integer, r real, s string, o object, a array
  J *find (const Str &k) { for (auto &x : o) if (x.first == k) return &x.second; return NULL; }
};
static J jobj () { J j; j.t = 'o'; return j; }
static J jstr (const Str &s) { J j; j.t = 's'; j.s = s; return j; }
static J jint (int64_t v) { J j; j.t = 'i'; j.i = v; return j; }
static J jreal (double v) { J j; j.t = 'r'; j.d = v; return j; }
static J jbool (bool v) { J j; j.t = 'T'; j.b = v; return j; }
static bool same (const J &x, const J &y)
{
  if (x.t != y.t) return false;
  switch (x.t) { case 'T': return x.b == y.b; case 'i': return x.i == y.i; case 'r': return x.d == y.d || (x.d != x.d && y.d != y.d); case 's': return x.s == y.s; case 'a': if (x.a.size () != y.a.size ()) return false; for (size_t i = 0; i < x.a.size (); i++) if (!same (x.a[i], y.a[i])) return false; return true; case 'o': if (x.o.size () != y.o.size ()) return false; for (auto &e : x.o) { J *q = const_cast<J &> (y).find (e.first); if (!q || !same (e.second, *q)) return false; } return true; }
  return true;
}
static bool utf8 (const Str &s)
{
  for (size_t i = 0; i < s.size ();) { unsigned char c = s[i]; int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1; if (n < 0 || i + n >= s.size ()) return false; for (int k = 1; k <= n; k++) if (((unsigned char)s[i + k] & 0xc0) != 0x80) return false; i += n + 1; }
  return true;
}
static bool sayable (const J &j) { if (j.t == 'r' && !std::isfinite (j.d)) return false; if (j.t == 's' && !utf8 (j.s)) return false; for (auto &x : j.o) if (!sayable (x.second)) return false; for (auto &x : j.a) if (!sayable (x)) return false; return true; }
static Str quoted (const Str &s, bool odd = false, Rng *g = NULL)
{
  Str o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else if (c == '\b') o += "\\b"; else if (c == '\f') o += "\\f"; else if (c < 32) o += fmt ("\\u%04X", c); else if (odd && c < 127 && g && g->below (12) == 0) o += fmt (g->below (2) ? "\\u%04x" : "\\u%04X", c); else if (odd && c == '/' && g && g->below (2)) o += "\\/"; else o += c; } return o + "\"";
}
// as text; loose: with spaces and escapes as writers differ. slack counts the bytes numbers may differ by
static Str text (const J &j, bool loose = false, Rng *g = NULL, size_t *slack = NULL)
{
  auto ws = [&] () -> Str { if (!loose || !g || g->below (3)) return ""; static const char *W[] = { " ", "\n", "\t", "  ", "\r\n" }; return W[g->below (5)]; };
  switch (j.t)
  {
  case 'N': return "null"; case 'T': return j.b ? "true" : "false"; case 'i': return fmt ("%lld", (long long)j.i); case 's': return quoted (j.s, loose, g);
  case 'r': { if (slack) *slack += 26; Str s = fmt ("%.17g", j.d); if (s.find_first_of (".eE") == Str::npos) s += ".0"; return s; }
  case 'a': { Str o = "["; for (size_t k = 0; k < j.a.size (); k++) o += (k ? "," : "") + ws () + text (j.a[k], loose, g, slack) + ws (); return o + "]"; }
  default: { Str o = "{"; for (size_t k = 0; k < j.o.size (); k++) o += (k ? "," : "") + ws () + quoted (j.o[k].first, loose, g) + ws () + ":" + ws () + text (j.o[k].second, loose, g, slack) + ws (); return o + "}"; }
  }
}
// text back into a document; false: not one
struct Reader
{
  const char *p, *e; int depth = 0;
  void ws () { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
  bool str (Str &o)
  {
    if (p >= e || *p != '"') return false; p++;
    while (p < e && *p != '"')
    {
      if ((unsigned char)*p < 32) return false;
      if (*p != '\\') { o += *p++; continue; }
      if (++p >= e) return false;
      switch (*p) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case '"': case '\\': case '/': o += *p; break;
      case 'u': { if (e - p < 5) return false; char h[5] = { p[1], p[2], p[3], p[4], 0 }; char *z; unsigned long c = strtoul (h, &z, 16); if (*z) return false; p += 4; if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c >= 0xd800 && c < 0xe000) return false; else { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } break; }
      default: return false; }
      p++;
    }
    if (p >= e) return false; p++; return utf8 (o);
  }
  bool val (J &j)
  {
    ws (); if (p >= e || ++depth > 200) return false; bool ok = false;
    if (*p == '{') { j.t = 'o'; p++; ws (); if (p < e && *p == '}') { p++; ok = true; } else for (;;) { ws (); Str k; J v; if (!str (k) || j.find (k)) return false; ws (); if (p >= e || *p++ != ':' || !val (v)) return false; j.o.push_back ({ k, v }); ws (); if (p >= e) return false; if (*p == ',') { p++; continue; } if (*p++ != '}') return false; ok = true; break; } }
    else if (*p == '[') { j.t = 'a'; p++; ws (); if (p < e && *p == ']') { p++; ok = true; } else for (;;) { J v; if (!val (v)) return false; j.a.push_back (v); ws (); if (p >= e) return false; if (*p == ',') { p++; continue; } if (*p++ != ']') return false; ok = true; break; } }
    else if (*p == '"') { j.t = 's'; ok = str (j.s); }
    else if (e - p >= 4 && !memcmp (p, "null", 4)) { p += 4; ok = true; } else if (e - p >= 4 && !memcmp (p, "true", 4)) { p += 4; j = jbool (true); ok = true; } else if (e - p >= 5 && !memcmp (p, "false", 5)) { p += 5; j = jbool (false); ok = true; }
    else { Str n; while (p < e && strchr ("+-.eE0123456789", *p) && *p) n += *p++; if (n.empty ()) return false; char *z; if (n.find_first_of (".eE") != Str::npos) { j = jreal (strtod (n.c_str (), &z)); ok = !*z; } else { errno = 0; j = jint (strtoll (n.c_str (), &z, 10)); ok = !*z && !errno; } }
    depth--; return ok;
  }
};
static bool parse (const Str &s, J &j) { Reader r = { s.data (), s.data () + s.size () }; if (!r.val (j)) return false; r.ws (); return r.p == r.e; }

// ---- what the operations mean -------------------------------------------------
typedef std::vector<Str> Path;
static bool tokens (const Str &p, Path &v)
{
  if (p.empty ()) return true; if (p[0] != '/') return false;
  for (size_t i = 0; i < p.size ();) { Str t; i++; while (i < p.size () && p[i] != '/') { if (p[i] == '~') { if (i + 1 >= p.size () || (p[i + 1] != '0' && p[i + 1] != '1')) return false; t += p[i + 1] == '0' ? '~' : '/'; i += 2; } else t += p[i++]; } v.push_back (t); }
  return true;
}
static J *child (J *j, const Str &t)
{
  if (j->t == 'o') return j->find (t); if (j->t != 'a') return NULL;
  if (t.empty () || t.size () > 9 || t.find_first_not_of ("0123456789") != Str::npos || (t[0] == '0' && t.size () > 1)) return NULL; size_t k = atol (t.c_str ()); return k < j->a.size () ? &j->a[k] : NULL;
}
struct Doc { bool has = false; J root; };
static J *lookup (Doc &d, const Str &p) { Path v; if (!d.has || !tokens (p, v)) return NULL; J *j = &d.root; for (auto &t : v) if (!(j = child (j, t))) return NULL; return j; }
static bool put (Doc &d, const Str &p, const J &val)
{
  Path v; if (p.empty () || !tokens (p, v) || v.empty ()) return false; Doc n = d; if (!n.has) { n.has = true; n.root = jobj (); } J *j = &n.root;
  for (size_t i = 0; i < v.size (); i++) { J *c = child (j, v[i]); if (!c) { if (j->t != 'o') return false; j->o.push_back ({ v[i], i + 1 < v.size () ? jobj () : J () }); c = &j->o.back ().second; } j = c; }
  *j = val; d = n; return true;
}
static J merge (const J *t, const J &patch)
{
  if (patch.t != 'o') return patch; J r = jobj ();
  if (t && t->t == 'o') for (auto &x : t->o) if (!const_cast<J &> (patch).find (x.first)) r.o.push_back (x);
  for (auto &x : patch.o) { if (x.second.t == 'N') continue; J *was = t && t->t == 'o' ? const_cast<J *> (t)->find (x.first) : NULL; r.o.push_back ({ x.first, merge (was, x.second) }); }
  return r;
}
static bool add (Doc &d, const Str &p, const J &entry) { Doc n = d; J *j = lookup (n, p); if (!j) { J e; e.t = 'a'; if (!put (n, p, e)) return false; j = lookup (n, p); } if (!j || j->t != 'a') return false; j->a.push_back (entry); d = n; return true; }

// ---- what is drawn --------------------------------------------------------------
static Str word () { static const char *W[] = { "A", "B", "FDSN", "Time", "Quality", "L", "0", "1", "2", "-", "01", "a/b", "m~n", "", "\xc3\xa9t\xc3\xa9", "with space", "say \"x\"", "back\\slash", "~1", "Event", "Detection", "Calibration", "Sequence", "tab\there" }; return W[choose (24)]; }
static Str some_text () { switch (choose (8)) { case 0: return ""; case 1: return "quote \" and \\ and /"; case 2: return "line\nbreak\tand\x01\x1f"; case 3: return "\xe6\x97\xa5\xe6\x9c\xac \xf0\x9f\x8c\x8d"; case 4: return Str (1 + choose (200), 'y'); case 5: return "{\"not\":\"parsed\"}"; case 6: return "null"; default: return fmt ("text %u", choose (1000)); } }
static J some_val (int depth)
{
  switch (choose (depth > 0 ? 9 : 6)) { case 0: return J (); case 1: return jbool (choose (2)); case 2: { static const int64_t V[] = { 0, 1, -1, 255, 65536, INT64_MAX, INT64_MIN, 2147483648LL }; return jint (V[choose (8)]); } case 3: { static const double V[] = { 0.5, -0.25, 1e300, 1e-300, 5.0, 1e21, 0.1, 123456789.125 }; return jreal (V[choose (8)]); } case 4: case 5: return jstr (some_text ()); case 6: { J j; j.t = 'a'; for (int n = choose (4); n > 0; n--) j.a.push_back (some_val (depth - 1)); return j; } default: { J j = jobj (); for (int n = choose (5); n > 0; n--) { Str k = word (); if (!j.find (k)) j.o.push_back ({ k, some_val (depth - 1) }); } return j; } }
}
static J some_doc () { J j = jobj (); for (int n = choose (6); n > 0; n--) { Str k = word (); if (!j.find (k)) j.o.push_back ({ k, some_val (3) }); } return j; }
static Str esc (const Str &t) { Str o; for (char c : t) o += c == '~' ? Str ("~0") : c == '/' ? Str ("~1") : Str (1, c); return o; }
static Str some_ptr (Doc &d)
{
  if (choose (16) == 15) { static const char *B[] = { "A", "A/B", "", "/A~", "/~2/x", "//", "/", "/A/", "FDSN.Time.Quality", "#/A" }; return B[choose (10)]; }
  Str p; J *j = d.has ? &d.root : NULL; int n = 1 + choose (4);
  for (int i = 0; i < n; i++) { if (j && j->t == 'o' && j->o.size () && choose (3)) { auto &x = j->o[choose (j->o.size ())]; p += "/" + esc (x.first); j = &x.second; } else if (j && j->t == 'a' && choose (4)) { size_t k = choose (j->a.size () + 1); p += fmt ("/%zu", k); j = k < j->a.size () ? &j->a[k] : NULL; } else { p += "/" + (choose (8) == 7 ? word () : esc (word ())); j = lookup (d, p); } }
  return p;
}
static Str isotime (int64_t t) { int64_t s = t / 1000000000, f = t % 1000000000; if (f < 0) { f += 1000000000; s--; } time_t x = s; struct tm b; gmtime_r (&x, &b); Str o = fmt ("%04d-%02d-%02dT%02d:%02d:%02d", b.tm_year + 1900, b.tm_mon + 1, b.tm_mday, b.tm_hour, b.tm_min, b.tm_sec); if (f % 1000) o += fmt (".%09lld", (long long)f); else if (f) o += fmt (".%06lld", (long long)(f / 1000)); return o + "Z"; }
static int64_t some_time () { switch (choose (6)) { case 0: return NSTUNSET; case 1: return NSTERROR; case 2: return (int64_t)range (0, 2000000000) * 1000000000LL; case 3: return (int64_t)range (0, 2000000000) * 1000000000LL + choose (1000000) * 1000; case 4: return -(int64_t)range (0, 2000000000) * 1000000000LL - choose (1000000000); default: return (int64_t)range (0, 2000000000) * 1000000000LL + choose (1000000000); } }
static void addt (J &j, const char *k, int64_t t) { if (t != NSTERROR && t != NSTUNSET) j.o.push_back ({ k, jstr (isotime (t)) }); }
static void adds (J &j, const char *k, const char *s) { if (*s) j.o.push_back ({ k, jstr (s) }); }
static void addd (J &j, const char *k, double v) { if (v != 0) j.o.push_back ({ k, jreal (v) }); }
static void addi (J &j, const char *k, int v) { if (v >= 0) j.o.push_back ({ k, jint (v) }); }
static void addb (J &j, const char *k, int v) { if (v >= 0) j.o.push_back ({ k, jbool (v != 0) }); }
static void setd (double &v) { static const double V[] = { 0, 0, 1, -2.5, 1e-9, 3.25e10 }; v = V[choose (6)]; }
template <size_t N> static void sets (char (&s)[N]) { int k = choose (4); Str x = k < 2 ? "" : k == 2 ? "MURDOCK" : choose (2) ? Str (N - 1, 'q') : Str ("\"odd\\"); memset (s, 0, N); memcpy (s, x.data (), x.size ()); }
static int opti () { return choose (3) ? -1 : choose (2) ? (int)choose (300) : 0; }

// ---- the histories ------------------------------------------------------------
struct Rec { MS3Record *m = NULL; Doc doc; };
struct State { LM_PARSED_JSON *ps = NULL; size_t rec = 0; Doc doc; int edited = 0; }; // edited: 0 only read, 1 an edit was tried, 2 not known
static Str extra_of (const MS3Record *m) { return m->extralength ? Str (m->extra, m->extralength) : Str (); }
static std::vector<Str> s_recs; static void keep (char *r, int n, void *) { s_recs.push_back (Str (r, n)); }
static void history (int nops, bool faults)
{
  sim_setup (); capture_logs (); nontrivial (); std::vector<Rec> rs (1 + choose (3)); std::vector<State> ss (1 + choose (3)); size_t base0 = live_blocks (); MS3Record *t = NULL;
  auto same_doc = [] (const MS3Record *m, const Doc &d, const char *what) { Str x = extra_of (m); J j; if (!d.has) { NEED (x.empty (), "extra:document", "%s: the extra headers are '%s' and should be none", what, x.substr (0, 300).c_str ()); return; } NEED (parse (x, j), "extra:document", "%s: the extra headers are not a document: '%s'", what, x.substr (0, 300).c_str ()); NEED (same (j, d.root), "extra:document", "%s: the extra headers are '%s' and should be '%s'", what, x.substr (0, 300).c_str (), text (d.root).substr (0, 300).c_str ()); };
  for (auto &r : rs)
  {
    if (choose (4)) { J j = some_doc (); r.doc.root = j; r.doc.has = true; Rng g = bulk (); RefRec q; q.fmt = 3; q.sid = sid_for (choose (8), &q); q.enc = 3; q.rate = 1; q.start = cal2ns (2022, 1 + choose (300), 0, 0, 0, 0); q.extra = text (j, choose (2), &g); if (q.extra == "{}") r.doc.has = true; q.s = gen_samples ('i', 1 + choose (5), 1); encode3 (q); NEED (msr3_parse (q.raw.data (), q.raw.size (), &r.m, 0, 0) == 0, "deliver:parse", "refused"); r.m->record = NULL; r.m->samplecnt = 0; log ("a record with %s", q.extra.c_str ()); }
    else { r.m = msr3_init (NULL); strcpy (r.m->sid, "FDSN:XX_STA__B_H_Z"); r.m->starttime = cal2ns (2022, 3, 0, 0, 0, 0); r.m->samprate = 1; log ("a record without extra headers"); }
    r.m->formatversion = 3; r.m->samprate = 1;
  }
  for (int k = 0; k < nops; k++)
  {
    size_t ri = choose (rs.size ()); Rec &r = rs[ri]; State *s = NULL; if (choose (3)) { s = &ss[choose (ss.size ())]; if (s->ps) ri = s->rec; else s->rec = ri; } Rec &q = rs[ri]; MS3Record *m = q.m; (void)r; Str was = extra_of (m);
    bool kept = s && s->ps; Doc work = kept ? s->doc : q.doc; int op = choose (16); bool fail = false; auto arm = [&] { if (faults && choose (3) == 2) { alloc_reset (); alloc_fail_at (choose (choose (2) ? 6 : 25), choose (3) == 2 ? 1000 : 1); fail = true; } }; auto off = [&] { bool f = fail && alloc_failed () > 0; alloc_fail_off (); return f; };
    Str on = fmt ("record %zu%s", ri, s ? fmt (kept ? " in kept state %d" : " in new state %d", (int)(s - &ss[0])).c_str () : "");
    if (op < 9)
    { // an edit
      Doc to = work; bool can = true; int rc = 0; bool failed; Str what; Str p = some_ptr (work);
      auto run = [&] (const std::function<int ()> &f) { arm (); rc = f (); failed = off (); };
      if (op < 6)
      {
        int ty = choose (10); if (p[0] != '/' && !(ty >= 8)) can = false;
        if (ty < 2) { static const double V[] = { 0, 1, -1.5, 1e100, 0.1, NAN, INFINITY, 1e-320 }; int z = choose (faults ? 5 : 40); double v = z < 8 ? V[z] : choose (100000) / 16.0; can = can && put (to, p, jreal (v)); what = fmt ("set %s to %g", p.c_str (), v); run ([&] { return mseh_set_ptr_r (m, p.c_str (), &v, 'n', s ? &s->ps : NULL); }); }
        else if (ty < 4) { J v = some_val (0); int64_t n = v.t == 'i' ? v.i : choose (100); can = can && put (to, p, jint (n)); what = fmt ("set %s to %lld", p.c_str (), (long long)n); run ([&] { return mseh_set_ptr_r (m, p.c_str (), &n, 'i', s ? &s->ps : NULL); }); }
        else if (ty < 6) { Str v = some_text (); if (choose (40) == 39) v = Str ("bad \xff\xfe utf"); else if (choose (40) == 39) v = Str (30000 + choose (40000), 'z'); can = can && put (to, p, jstr (v)); what = fmt ("set %s to '%.60s'", p.c_str (), v.c_str ()); Str copy = v; run ([&] { int x = mseh_set_ptr_r (m, p.c_str (), (void *)copy.c_str (), 's', s ? &s->ps : NULL); std::fill (copy.begin (), copy.end (), '#'); return x; }); }
        else if (ty < 7) { int v = choose (2) ? (int)choose (3) : -5; can = can && put (to, p, jbool (v)); what = fmt ("set %s to boolean %d", p.c_str (), v); run ([&] { return mseh_set_ptr_r (m, p.c_str (), &v, 'b', s ? &s->ps : NULL); }); }
        else if (ty < 8) { int v = 1; can = false; what = "set by a type there is none of"; run ([&] { return mseh_set_ptr_r (m, p.c_str (), &v, 'x', s ? &s->ps : NULL); }); }
        else { Str pt; J patch; if (choose (3) == 2) p = ""; if (choose (12) == 11) { static const char *B[] = { "{", "", "{} x", "{'a':1}", "nul", "{\"a\":}" }; pt = B[choose (6)]; } else { patch = choose (8) == 7 ? some_val (1) : some_doc (); J *tg = lookup (work, p); if (tg && tg->t == 'o' && patch.t == 'o') for (auto &x : tg->o) if (choose (3) == 2) { if (J *h = patch.find (x.first)) *h = J (); else patch.o.push_back ({ x.first, choose (2) ? J () : some_val (2) }); } Rng g = bulk (); pt = text (patch, choose (2), &g); }
          J chk; J *tg = lookup (to, p); can = tg && parse (pt, chk) && (p.empty () || p[0] == '/'); if (can) *tg = merge (tg, chk); what = fmt ("merge %s into '%s'", pt.c_str (), p.c_str ()); Str copy = pt; run ([&] { int x = mseh_set_ptr_r (m, p.c_str (), (void *)copy.c_str (), 'M', s ? &s->ps : NULL); std::fill (copy.begin (), copy.end (), '#'); return x; }); }
      }
      else
      { // structured entries
        J e = jobj (); bool dflt = choose (3) != 2; const char *ptr = dflt ? NULL : p.c_str (); Str at;
        int ty = choose (4);
        if (ty == 0) { MSEHEventDetection d; memset (&d, 0x5a, sizeof d); sets (d.type); sets (d.detector); setd (d.signalamplitude); setd (d.signalperiod); setd (d.backgroundestimate); sets (d.wave); sets (d.units); d.onsettime = some_time (); bool snr = choose (2); for (int z = 0; z < 6; z++) d.medsnr[z] = snr ? choose (2) * choose (256) : 0; d.medlookback = opti (); d.medpickalgorithm = opti (); d.next = NULL; adds (e, "Type", d.type); addd (e, "SignalAmplitude", d.signalamplitude); addd (e, "SignalPeriod", d.signalperiod); addd (e, "BackgroundEstimate", d.backgroundestimate); adds (e, "Wave", d.wave); adds (e, "Units", d.units); addt (e, "OnsetTime", d.onsettime); bool any = false; J a; a.t = 'a'; for (int z = 0; z < 6; z++) { if (d.medsnr[z]) any = true; a.a.push_back (jint (d.medsnr[z])); } if (any) e.o.push_back ({ "MEDSNR", a }); addi (e, "MEDLookback", d.medlookback); addi (e, "MEDPickAlgorithm", d.medpickalgorithm); adds (e, "Detector", d.detector); at = "/FDSN/Event/Detection"; run ([&] { int x = mseh_add_event_detection_r (m, ptr, &d, s ? &s->ps : NULL); memset (&d, '#', sizeof d); return x; }); }
        else if (ty == 1) { MSEHCalibration d; memset (&d, 0x5a, sizeof d); sets (d.type); d.begintime = some_time (); d.endtime = some_time (); d.steps = opti (); d.firstpulsepositive = opti (); d.alternatesign = opti (); sets (d.trigger); d.continued = opti (); setd (d.amplitude); sets (d.inputunits); sets (d.amplituderange); setd (d.duration); setd (d.sineperiod); setd (d.stepbetween); sets (d.inputchannel); setd (d.refamplitude); sets (d.coupling); sets (d.rolloff); sets (d.noise); d.next = NULL; adds (e, "Type", d.type); addt (e, "BeginTime", d.begintime); addt (e, "EndTime", d.endtime); addi (e, "Steps", d.steps); addb (e, "StepFirstPulsePositive", d.firstpulsepositive); addb (e, "StepAlternateSign", d.alternatesign); adds (e, "Trigger", d.trigger); addb (e, "Continued", d.continued); addd (e, "Amplitude", d.amplitude); adds (e, "InputUnits", d.inputunits); adds (e, "AmplitudeRange", d.amplituderange); addd (e, "Duration", d.duration); addd (e, "SinePeriod", d.sineperiod); addd (e, "StepBetween", d.stepbetween); adds (e, "InputChannel", d.inputchannel); addd (e, "ReferenceAmplitude", d.refamplitude); adds (e, "Coupling", d.coupling); adds (e, "Rolloff", d.rolloff); adds (e, "Noise", d.noise); at = "/FDSN/Calibration/Sequence"; run ([&] { int x = mseh_add_calibration_r (m, ptr, &d, s ? &s->ps : NULL); memset (&d, '#', sizeof d); return x; }); }
        else if (ty == 2) { MSEHTimingException d; memset (&d, 0x5a, sizeof d); d.time = some_time (); static const float V[] = { -1, 0, 50.5f, 100, -0.5f }; d.vcocorrection = V[choose (5)]; d.usec = 0; d.receptionquality = opti (); static const uint32_t C[] = { 0, 1, 4294967295u, 2147483648u }; d.count = C[choose (4)]; sets (d.type); sets (d.clockstatus); addt (e, "Time", d.time); if (d.vcocorrection >= 0) e.o.push_back ({ "VCOCorrection", jreal (d.vcocorrection) }); addi (e, "ReceptionQuality", d.receptionquality); if (d.count) e.o.push_back ({ "Count", jint (d.count) }); adds (e, "Type", d.type); adds (e, "ClockStatus", d.clockstatus); at = "/FDSN/Time/Exception"; run ([&] { int x = mseh_add_timing_exception_r (m, ptr, &d, s ? &s->ps : NULL); memset (&d, '#', sizeof d); return x; }); }
        else { MSEHRecenter d; memset (&d, 0x5a, sizeof d); sets (d.type); d.begintime = some_time (); d.endtime = some_time (); sets (d.trigger); adds (e, "Type", d.type); addt (e, "BeginTime", d.begintime); addt (e, "EndTime", d.endtime); adds (e, "Trigger", d.trigger); at = "/FDSN/Recenter/Sequence"; run ([&] { int x = mseh_add_recenter_r (m, ptr, &d, s ? &s->ps : NULL); memset (&d, '#', sizeof d); return x; }); }
        if (!dflt) at = p; can = (at.empty () || at[0] == '/') && !at.empty () && add (to, at, e); what = fmt ("add to %s: %s", at.c_str (), text (e).c_str ());
      }
      // written at once without a state, so that it must be possible to write
      bool late = s != NULL; size_t slack = 0; bool unsure = false; if (can && !late) { Str x = text (to.root, false, NULL, &slack); if (!sayable (to.root) || x.size () > 65535 + slack) can = false; else if (x.size () + slack > 65535) unsure = true; }
      log ("%s: %s: %d%s", on.c_str (), what.substr (0, 300).c_str (), rc, failed ? " (memory)" : "");
      NEED (rc == 0 || !can || failed || unsure, "extra:refused", "%s: %s is refused with %d; the document is %s", on.c_str (), what.c_str (), rc, text (work.root).substr (0, 300).c_str ());
      NEED (rc != 0 || can || unsure, "extra:accepted", "%s: %s is said to be done and cannot be; the document is %s", on.c_str (), what.c_str (), work.has ? text (work.root).substr (0, 300).c_str () : "none");
      if (rc == 0) work = to;
      if (late)
      {
        NEED (extra_of (m) == was, "extra:early", "%s: %s changes the extra headers before they are serialised", on.c_str (), what.c_str ());
        if (s->ps) { int prev = kept ? s->edited : 0; s->doc = work; s->edited = rc == 0 || prev == 1 ? 1 : 2; }
        else NEED (rc != 0, "extra:state", "%s: %s gives no state", on.c_str (), what.c_str ());
      }
      else { q.doc = work; if (rc != 0) NEED (extra_of (m) == was, "extra:changed", "%s: %s fails and changes the extra headers from '%s' to '%s'", on.c_str (), what.c_str (), was.substr (0, 200).c_str (), extra_of (m).substr (0, 200).c_str ()); else same_doc (m, q.doc, what.c_str ()); }
    }
    else if (op < 12)
    { // a reading
      Str p = some_ptr (work); static const char T[] = "nisb"; char ty = T[choose (4)]; uint32_t max = 1 + (choose (2) ? choose (12) : choose (300)); bool want = choose (5) != 4; double dn = -77; int64_t in = -77; int bn = -77; char *buf = (char *)malloc (max); memset (buf, '!', max); void *out = !want ? NULL : ty == 'n' ? (void *)&dn : ty == 'i' ? (void *)&in : ty == 's' ? (void *)buf : (void *)&bn;
      arm (); int rc = mseh_get_ptr_r (m, p.c_str (), out, ty, max, s ? &s->ps : NULL); bool failed = off (); J *j = p.size () && p[0] == '/' ? lookup (work, p) : NULL; log ("%s: get %s as %c: %d%s", on.c_str (), p.c_str (), ty, rc, failed ? " (memory)" : "");
      NEED (extra_of (m) == was, "extra:changed", "%s: reading %s changes the extra headers", on.c_str (), p.c_str ());
      if (s && s->ps && !kept) { s->doc = q.doc; s->edited = 0; }
      bool fits = j && (ty == 'n' ? j->t == 'i' || j->t == 'r' : ty == 'i' ? j->t == 'i' : ty == 's' ? j->t == 's' : j->t == 'T');
      int exp = work.has || kept ? p.empty () || p[0] != '/' ? MS_GENERROR : !j ? 1 : fits || !want ? 0 : 2 : 1; if (!(rc < 0 && failed)) NEED (rc == exp, "extra:get", "%s: getting %s as %c is answered with %d instead of %d; the document is %s", on.c_str (), p.c_str (), ty, rc, exp, work.has ? text (work.root).substr (0, 300).c_str () : "none");
      if (rc == 0 && want) { bool ok = ty == 'n' ? (j->t == 'i' ? dn == (double)j->i : dn == j->d || (dn != dn && j->d != j->d)) : ty == 'i' ? in == j->i : ty == 'b' ? bn == (j->b ? 1 : 0) : Str (buf, strnlen (buf, max)) == j->s.substr (0, max - 1); NEED (ok, "extra:value", "%s: %s reads as %g, %lld, %d, '%.*s'; the document is %s", on.c_str (), p.c_str (), dn, (long long)in, bn, (int)strnlen (buf, max), buf, text (work.root).substr (0, 300).c_str ()); }
      else if (rc) NEED (dn == -77 && in == -77 && bn == -77 && buf[0] == '!', "extra:value", "%s: %s is answered with %d and a value", on.c_str (), p.c_str (), rc);
      free (buf);
    }
    else if (op < 14 && s && s->ps)
    { // into the record
      arm (); int rc = mseh_serialize (m, &s->ps); bool failed = off (); size_t slack = 0; Str x = s->doc.has ? text (s->doc.root, false, NULL, &slack) : ""; bool no = s->doc.has && (!sayable (s->doc.root) || x.size () > 65535 + slack), unsure = x.size () + slack > 65535 && x.size () <= 65535 + slack; log ("%s: serialise: %d%s", on.c_str (), rc, failed ? " (memory)" : "");
      if (rc < 0) { NEED (failed || (s->edited && (no || unsure)), "extra:serialise", "%s: serialising fails with %d; the document is %s", on.c_str (), rc, x.substr (0, 300).c_str ()); if (!failed) { NEED (rc == MS_OUTOFRANGE, "extra:serialise", "%s: a document that cannot be written gives %d", on.c_str (), rc); probe ("unwritable"); } NEED (extra_of (m) == was, "extra:changed", "%s: serialising fails and changes the extra headers", on.c_str ()); }
      else if (rc == 0) NEED ((!s->edited || s->edited == 2 || !s->doc.has) && extra_of (m) == was, "extra:serialise", "%s: serialising an edited document of %zu bytes does nothing", on.c_str (), x.size ());
      else { NEED (!no, "extra:serialise", "%s: a document that cannot be written is written", on.c_str ()); NEED (rc == m->extralength && s->edited, "extra:serialise", "%s: serialising gives %d bytes, the record has %d", on.c_str (), rc, m->extralength); same_doc (m, s->doc, "serialised"); q.doc = s->doc; s->edited = 1; probe ("serialised"); }
      if (rc > 0 && choose (8) == 7 && s->doc.has && s->doc.root.t == 'o' && slack == 0 && !s->doc.root.find ("Pad") && rc < 60000)
      { // the last byte that fits
        bool over = choose (2); size_t target = over ? 65536 : 65535, n = target - rc - (s->doc.root.o.empty () ? 8 : 9); Str v (n, 'p'); Str was2 = extra_of (m); NEED (mseh_set_ptr_r (m, "/Pad", (void *)v.c_str (), 's', &s->ps) == 0, "extra:refused", "a long string is refused"); int r2 = mseh_serialize (m, &s->ps); log ("%zu bytes: %d", target, r2); probe ("limit");
        if (over) { NEED (r2 == MS_OUTOFRANGE && extra_of (m) == was2, "extra:limit", "a document of %zu bytes gives %d", target, r2); mseh_free_parsestate (&s->ps); } else { NEED (r2 == (int)target && m->extralength == target, "extra:limit", "a document of %zu bytes gives %d", target, r2); put (s->doc, "/Pad", jstr (v)); q.doc = s->doc; same_doc (m, q.doc, "of the greatest length"); }
      }
    }
    else if (op < 15)
    { // away with a state
      if (s && s->ps) { log ("%s: free the state", on.c_str ()); mseh_free_parsestate (&s->ps); NEED (!s->ps, "extra:state", "a freed state is not cleared"); NEED (extra_of (m) == was, "extra:changed", "freeing a state changes the extra headers"); }
    }
    else
    { // another document altogether; not while states are in use
      bool used = false; for (auto &x : ss) if (x.ps && x.rec == ri) used = true; if (used) continue; J j = choose (6) == 5 ? some_val (2) : some_doc (); Rng g = bulk (); Str x = text (j, choose (2), &g); bool can = true, none = choose (5) == 4, wide = false; if (!none && choose (8) == 7) { static const char *B[] = { "", "{", "{\"a\":1", "x", "{\"a\":\"\xff\"}", "{} {}" }; x = B[choose (6)]; can = false; } else if (choose (12) == 11 && !none) { j = jobj (); j.o.push_back ({ "P", jstr (Str (65535 - 8 + (wide = choose (2)), 'w')) }); x = text (j); can = !wide; } if (can && !none && choose (12) == 11) { /* what counts is how long it is without the spaces */ Str sp (1 + choose (70000), " \n\t\r"[choose (4)]); x = choose (2) ? x + sp : sp + x; }
      Str copy = x; arm (); int rc = mseh_replace (m, none ? NULL : (char *)copy.c_str ()); bool failed = off (); log ("%s: replace by %.100s: %d%s", on.c_str (), none ? "none" : x.c_str (), rc, failed ? " (memory)" : "");
      if (none) { NEED (rc == 0 && !m->extralength, "extra:replace", "removing gives %d and leaves %d bytes", rc, m->extralength); q.doc = Doc (); }
      else if (rc < 0) { NEED (!can || failed, "extra:replace", "replacing by %.200s fails with %d", x.c_str (), rc); NEED (extra_of (m) == was, "extra:changed", "replacing fails and changes the extra headers"); }
      else { NEED (can && rc == m->extralength, "extra:replace", "replacing by %.200s gives %d", x.c_str (), rc); q.doc.has = true; q.doc.root = j; same_doc (m, q.doc, "replaced"); }
    }
    if (m->extralength) NEED (m->extra && alloc_size (m->extra) >= m->extralength, "extra:buffer", "extra headers of %d bytes in a buffer of %zu", m->extralength, m->extra ? alloc_size (m->extra) : 0);
  }
  for (auto &s : ss) mseh_free_parsestate (&s.ps);
  // and through a packed record
  for (auto &r : rs)
  {
    same_doc (r.m, r.doc, "at the end"); if (choose (4) == 3) { MS3Record *d = msr3_duplicate (r.m, 0); NEED (d, "extra:duplicate", "not duplicated"); same_doc (d, r.doc, "duplicated"); NEED (!r.m->extra || r.m->extra[r.m->extralength] || !d->extra[d->extralength], "extra:duplicate", "the duplicated extra headers are not ended as those of the record"); double v = 1; mseh_set_ptr_r (d, "/only here", &v, 'n', NULL); same_doc (r.m, r.doc, "with its duplicate changed"); msr3_free (&d); }
    tune_buffer (70000); s_recs.clear (); int64_t n = 0; r.m->reclen = 70000; r.m->numsamples = 0; r.m->samplecnt = 0; r.m->encoding = 3; NEED (msr3_pack (r.m, keep, NULL, &n, MSF_FLUSHDATA, 0) == 1 && s_recs.size () == 1, "extra:pack", "not packed"); NEED (msr3_parse (s_recs[0].data (), s_recs[0].size (), &t, MSF_VALIDATECRC, 0) == 0, "extra:pack", "not readable"); same_doc (t, r.doc, "packed and read"); t->record = NULL; msr3_free (&r.m);
  }
  msr3_free (&t); NEED (live_blocks () == base0, "extra:leak", "memory is left behind: %s", live_desc ().c_str ());
}
SCENARIO (C21, edits) { history (1 + choose (25), false); }
SCENARIO (C21, failing) { history (1 + choose (20), true); }
