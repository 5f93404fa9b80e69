// C14: msi's copies, sums and listings reflect exactly the records it read
#include "scn.h"
using namespace sim;

static void monthday (int y, int doy, int &mo, int &d) { static const int len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0; mo = 0; d = doy; while (d > len[mo] + (mo == 1 && leap)) d -= len[mo] + (mo == 1 && leap), mo++; mo++; }
// format: 0 ordinal, 1 month and day, 2 epoch, 4 month and day with Z, 5 with Z and day of year
static Str timetext (int64_t t, int form, bool microonly = false)
{
  int y, doy, h, m, s, mo, d; uint32_t ns; ns2cal (t, y, doy, h, m, s, ns); monthday (y, doy, mo, d);
  Str f = ns % 1000 && !microonly ? fmt (".%09u", ns) : fmt (".%06u", ns / 1000);
  if (form == 0) return fmt ("%04d,%03d,%02d:%02d:%02d%s", y, doy, h, m, s, f.c_str ());
  if (form == 2) { uint64_t q = t < 0 ? -(uint64_t)t : t; ns = q % 1000000000; f = ns % 1000 && !microonly ? fmt (".%09u", ns) : fmt (".%06u", ns / 1000); return fmt ("%s%llu%s", t < 0 ? "-" : "", (unsigned long long)(q / 1000000000), f.c_str ()); }
  Str r = fmt ("%04d-%02d-%02dT%02d:%02d:%02d%s", y, mo, d, h, m, s, f.c_str ());
  if (form >= 4) r += "Z"; if (form == 5) r += fmt (" (%03d)", doy);
  return r;
}
struct In { Str arg; Stream s; size_t from, to; bool bad = false; std::vector<int64_t> offs; };
// how files are named on the command line: directly, as ranges, on standard input, by URL or in list files
struct Inputs { std::vector<In> in; std::vector<Str> args; bool piped = false; };
static void place (Inputs &x, std::vector<RefRec> recs)
{
  // cut the records into files
  size_t i = 0; int n = 0; Str list; int lists = 0; bool uselist = choose (3) == 2;
  while (i < recs.size () || n == 0)
  {
    In f; size_t k = 1 + choose (recs.size ()); for (; k && i < recs.size (); k--, i++) f.s.add (recs[i]);
    Str name = fmt ("in%d", n); if (uselist && choose (6) == 5) { name += '_' + Str (200 + choose (240), 'n'); probe ("long-list-entry"); } int kind = choose (8); f.from = 0; f.to = f.s.recs.size (); f.offs = f.s.offs;
    if (kind == 7 && !x.piped && n == 0) { make_source (SRC_STDIN, f.s.bytes, name); f.arg = "-"; x.piped = true; }
    else
    {
      bool cut = choose (4) == 3 && f.s.recs.size ();
      Stream whole = f.s; Str pre, post; int64_t lo = 0, hi = 0, far = 0;
      if (cut)
      { // records before and after which are not asked for
        if (choose (2)) { RefRec r = pick (recs); for (int z = 1 + choose (2); z; z--) pre += r.raw; } if (choose (2)) { post = pick (recs).raw; if (choose (2)) post = Str (1 + choose (300), 'j'); }
        if (choose (4) == 3) { static const int64_t F[] = { 0x7fffffd0LL, 0xffffffd0LL, 5000000000LL, 98765432109LL }; far = F[choose (4)] + choose (64); probe ("far-into-a-file"); }
        lo = far + pre.size (); hi = lo + f.s.bytes.size () - 1; for (auto &o : f.offs) o += lo;
      }
      Source s = make_source (kind == 6 ? SRC_URL : SRC_FILE, pre + f.s.bytes + post, name); f.arg = s.path; if (kind == 6) { server (s.path).ranges = true; server (s.path).hole = far; } else file (name).hole = far;
      if (cut) f.arg += post.empty () && choose (2) ? fmt ("@%lld", (long long)lo) : fmt ("@%lld-%lld", (long long)lo, (long long)hi);
    }
    n++; x.in.push_back (f);
    bool tolist = uselist && choose (2);
    if (tolist) { if (choose (4) == 3) list += choose (3) == 2 ? "#" + Str (choose (4) == 3 ? 1018 + choose (12) : choose (3000), 'c') + "\n" : choose (2) ? "# comment\n" : "\n"; list += f.arg + (choose (4) == 3 ? "\r\n" : "\n"); }
    if (list.size () && (!tolist || choose (3) == 2 || i >= recs.size ())) { if (choose (3) == 2) { list.pop_back (); if (list.back () == '\r') list.pop_back (); } Str ln = fmt ("list%d", lists++); make_source (SRC_FILE, list, ln); x.args.push_back ("@" + ln); list.clear (); }
    if (!tolist) x.args.push_back (f.arg);
  }
}
static Str gapform (double gap)
{
  if (gap >= 86400.0 || gap <= -86400.0) return fmt ("%-3.1fd", gap / 86400);
  if (gap >= 3600.0 || gap <= -3600.0) return fmt ("%-3.1fh", gap / 3600);
  return fmt ("%-4.4g", gap);
}
// time from the end of one segment to the start of the next; an overlap is not more than the next covers
static double gap_of (const Seg &a, const Seg &b) { double g = (double)(b.start - a.end) / 1e9; double cover = (double)(b.end - b.start) / 1e9 + (b.rate ? 1.0 / b.rate : 0); return g < -cover ? -cover : g; }
static Str recline (const RefRec &r, int p)
{
  Str t = timetext (r.start, 5);
  if (!p) return fmt ("%s, %d, %d, %lld samples, %-.10g Hz, %s\n", r.sid.c_str (), r.pubver, (int)r.raw.size (), (long long)r.nsamp (), r.hz (), t.c_str ());
  uint32_t crc = 0; if (r.fmt == 3) memcpy (&crc, &r.raw[28], 4);
  Str o = fmt ("%s, version %d, %d bytes (format: %d)\n             start time: %s\n      number of samples: %lld\n       sample rate (Hz): %.10g\n", r.sid.c_str (), r.pubver, (int)r.raw.size (), r.fmt, t.c_str (), (long long)r.nsamp (), r.hz ());
  if (p > 1)
  {
    static const char *F[] = { "Calibration signals present", "Time tag is questionable", "Clock locked" };
    o += "                  flags: ["; for (int b = 7; b >= 0; b--) o += r.flags >> b & 1 ? "1" : "0"; o += "] 8 bits\n";
    for (int b = 0; b < 8; b++) if (r.flags >> b & 1) o += fmt ("                         [Bit %d] %s\n", b, b < 3 ? F[b] : "Undefined bit set");
  }
  o += fmt ("                    CRC: 0x%0X\n    extra header length: %d bytes\n    data payload length: %u bytes\n       payload encoding: %s (val: %d)\n", crc, (int)r.extra.size (), r.datalen, ms_encodingstr (r.enc), r.enc);
  if (p > 1 && r.extra.size ())
  { // one line for every value, deeper ones further right, strings as they are
    int in = 16; bool str = false; o += "          extra headers:\n" + Str (in, ' ');
    for (size_t k = 1; k + 1 < r.extra.size (); k++)
    {
      char c = r.extra[k]; if (str) { o += c; if (c == '\\') o += r.extra[++k]; else if (c == '"') str = false; continue; }
      if (c == '"') str = true;
      if (c == ':') o += ": "; else if (c == ',') o += ",\n" + Str (in, ' '); else if (c == '{' || c == '[') { in += 2; o += c; o += "\n" + Str (in, ' '); } else if (c == '}' || c == ']') { in -= 2; o += "\n" + Str (in, ' ') + c; } else o += c;
    }
    o += "\n";
  }
  return o;
}
static Str dataline (const RefRec &r, int all)
{
  Str o; if (r.nsamp () == 0) return o;
  if (r.s.type == 't') return "Text Data:\n" + r.s.t + "\n";
  size_t n = r.nsamp (), c = 0;
  for (size_t l = 0; l < n / 6 + 1; l++) { for (int k = 0; k < 6; k++) if (c < n) { o += r.s.type == 'i' ? fmt ("%10d  ", r.s.i[c]) : r.s.type == 'f' ? fmt ("%10.8g  ", r.s.f[c]) : fmt ("%10.10g  ", r.s.d[c]); c++; } o += "\n"; if (all == 1) break; }
  return o;
}
static Str cmdline (const std::vector<Str> &a) { Str c = "msi"; for (auto &x : a) c += " " + x; return c; }
static void same_text (const Str &got, const Str &want, const char *cls, const Str &cmd)
{
  if (got == want) return;
  size_t i = 0; while (i < got.size () && i < want.size () && got[i] == want[i]) i++; size_t b = i; while (b && got[b - 1] != '\n') b--;
  violate (cls, "%s prints '%s' where the records give '%s' (byte %zu of %zu/%zu)", cmd.c_str (), got.substr (b, 120).substr (0, got.substr (b, 120).find ('\n')).c_str (), want.substr (b, 120).substr (0, want.substr (b, 120).find ('\n')).c_str (), i, got.size (), want.size ());
}
// everything it can write, for records of any kind
SCENARIO (C14, outputs)
{
  sim_setup (); size_t mx = 64; GenOpt o; o.extras = choose (2); std::vector<RefRec> recs; int n = 1 + choose (12);
  int det = choose (4) == 3 ? 1 + choose (2) : 0; if (det) o.v2 = false; if (choose (6) == 5) o.max_samples = 5000;
  for (int i = 0; i < n; i++) { RefRec r = gen_record (o); if (r.s.type == 't') for (auto &c : r.s.t) if (!c || c == '%') c = '.'; if (r.s.type == 't') { r.raw.clear (); if (!build (r)) continue; } mx = std::max (mx, r.raw.size ()); recs.push_back (r); }
  if (choose (160) == 159)
  { // more lines of samples than 16 bits count
    o.v2 = false; RefRec r; do r = gen_record (o); while (r.s.type != 'i'); r.enc = choose (2) ? 3 : 10; r.s = gen_samples ('i', 393000 + choose (2000), r.enc == 3 ? 20 : 3); r.raw.clear (); if (build (r)) { mx = std::max (mx, r.raw.size ()); recs = { r }; probe ("very-long-record"); }
  }
  if (recs.empty ()) return; tune_buffer (mx);
  bool snd = choose (3) == 2, copy = choose (4) != 3, bin = choose (2), sum = choose (3), off = choose (3) == 2; int data = choose (3), only = choose (3) == 2;
  // a payload that cannot be decoded: its samples are missing and said to be, all else is there
  std::set<const char *> none; std::vector<size_t> bad; int spoil = choose (6) == 5 ? choose (recs.size ()) : -1; Str spoilt;
  if (spoil >= 0) { RefRec &r = recs[spoil]; if (r.fmt == 3 && r.enc == 11 && r.nsamp () > 4 && r.datalen >= 64) { for (int k = 0; k < 4; k++) r.raw[r.dataoff + k] = 0; memset (&r.raw[28], 0, 4); uint32_t c = crc32c_ref (r.raw.data (), r.raw.size ()); memcpy (&r.raw[28], &c, 4); fault ("bad-payload"); } else spoil = -1; }
  Inputs x; place (x, recs); std::vector<Str> a;
  auto opt = [&] (const char *s) { a.insert (a.begin () + choose (a.size () + 1), s); };
  if (sum) opt ("-s"); if (snd) opt ("-snd"); if (off) opt ("-O"); if (det == 1) opt ("-p"); if (det == 2) { if (choose (2)) opt ("-pp"); else { opt ("-p"); opt ("-p"); } } if (data) opt (data == 1 ? "-d" : "-D"); if (only) opt ("-S");
  if (copy) { a.push_back ("-o"); a.push_back ("copy"); } if (bin) { a.push_back ("-b"); a.push_back ("bin"); } if (choose (4) == 3) { file ("copy").data = "older and longer content" + Str (300, 'x'); } if (choose (5) == 4) a.push_back ("-v");
  if (choose (2)) a.insert (a.end (), x.args.begin (), x.args.end ()); else a.insert (a.begin (), x.args.begin (), x.args.end ());
  Str wc, wb, wl; int64_t nr = 0, ns = 0, lim = -1; bool dec = data || bin, met = false;
  if (choose (5) == 4) { lim = choose (recs.size () + 2); a.insert (a.begin () + choose (2) * a.size (), { "-n", fmt ("%d", (int)lim) }); probe ("record-limit"); }
  size_t idx = 0; int nf = 0;
  for (auto &f : x.in) for (size_t i = 0; i < std::max<size_t> (f.s.recs.size (), 1); i++)
  {
    if (lim >= 0 && nr >= lim) break; if (i == 0) nf++; if (i >= f.s.recs.size ()) break; if ((int)idx == spoil) met = true;
    const RefRec &r = f.s.recs[i]; wc += r.raw; nr++; ns += r.nsamp (); bool isbad = (int)idx++ == spoil; if (!isbad) wb += r.s.bytes ();
    if (!only) { if (off) wl += fmt ("%-10lld", (long long)f.offs[i]); wl += recline (r, det); if (data && !isbad) wl += dataline (r, data); }
  }
  if (sum) wl += fmt ("Files: %d, Records: %lld, Samples: %lld\n", nf, (long long)nr, (long long)ns);
  Str cl = cmdline (a); log ("%s", cl.c_str ()); nontrivial ();
  MsiResult r = run_msi (a);
  NEED (r.status == (met && dec ? 1 : 0), "msi:status", "%s ends with %d: %s", cl.c_str (), r.status, r.err.c_str ());
  if (copy) NEED (file ("copy").data == wc, "msi:copy", "%s copies %zu bytes where the records have %zu (or others)", cl.c_str (), file ("copy").data.size (), wc.size ());
  if (bin) NEED (file ("bin").data == wb, "msi:samples", "%s stores %zu bytes of samples where the records have %zu (or others)", cl.c_str (), file ("bin").data.size (), wb.size ());
  if (only) { size_t z = r.out.find ("DCC|"); if (z == Str::npos) violate ("msi:listing", "%s prints no SYNC header", cl.c_str ()); r.out.resize (z); }
  same_text (r.out, wl, "msi:listing", cl);
}
// trace, gap and SYNC lists of known segments
SCENARIO (C14, lists)
{
  sim_setup (); Tol tol; pick_tol (tol); bool split = choose (2); std::vector<RefRec> recs; Want want; std::map<Str, int> maxver;
  if (tol.have && tol.time && tol.t == 0.004) tol.t = 0.005;
  build_case (recs, want, maxver, tol, split, 1 + choose (5), 8, true);
  size_t mx = 64; for (auto &r : recs) mx = std::max (mx, r.raw.size ()); tune_buffer (mx);
  auto order = permutation (recs.size ()); std::vector<RefRec> q; for (size_t i : order) q.push_back (recs[i]);
  if (q.size () < 60) for (auto &r : q) log ("  %s version %d end %lld", describe (r).c_str (), r.pubver, (long long)r.end ());
  Inputs x; place (x, q); std::vector<Str> a; auto opt = [&] (const Str &s) { a.push_back (s); };
  int kind = choose (5); bool gaps = false, recsout = false; // 0 trace only, 1 with records, 2 gaps only, 3 gaps with records, 4 SYNC
  if (kind == 0) { gaps = choose (2); opt (gaps ? "-tg" : "-T"); } if (kind == 1) { opt ("-t"); recsout = true; if (choose (2)) { opt ("-tg"); gaps = true; } } if (kind == 2) opt ("-G"); if (kind == 3) { opt ("-g"); recsout = true; } if (kind == 4) opt ("-S");
  if (split) opt (choose (2) ? "-P" : "-Q"); int tf = choose (4); if (tf < 3) { opt ("-tf"); opt (fmt ("%d", tf)); } else tf = 4;
  if (tol.have && tol.time) { opt ("-tt"); opt (fmt ("%.10g", tol.t)); } if (tol.have && tol.rate) { opt ("-rt"); opt (fmt ("%.10g", tol.r)); }
  bool hasmin = false, hasmax = false; double gmin = 0, gmax = 0; if (choose (3) == 2) { hasmin = true; gmin = choose (2) ? -(int)choose (100) : (double)choose (1000) / 10; opt ("-gmin"); opt (fmt ("%g", gmin)); } if (choose (3) == 2) { hasmax = true; gmax = choose (2) ? -(int)choose (100) : (double)choose (20000) / 10; opt ("-gmax"); opt (fmt ("%g", gmax)); }
  bool unp = choose (3) == 2; if (unp) { opt ("-b"); opt ("bin"); } bool sum = choose (2); if (sum) opt ("-s");
  if (choose (2)) a.insert (a.end (), x.args.begin (), x.args.end ()); else a.insert (a.begin (), x.args.begin (), x.args.end ());
  Str w; int64_t ns = 0; for (auto &r : q) { ns += r.nsamp (); if (recsout) w += recline (r, 0); }
  if (sum) w += fmt ("Files: %d, Records: %d, Samples: %lld\n", (int)x.in.size (), (int)q.size (), (long long)ns);
  int nt = 0, nseg = 0, ngap = 0;
  for (auto &e : want) std::stable_sort (e.second.begin (), e.second.end (), [] (const Seg &p, const Seg &r) { return p.start < r.start; });
  if (kind <= 1)
  {
    w += Str ("       SourceID                      Start sample                End sample           ") + (gaps ? "Gap  " : "") + "Hz  Samples\n";
    for (auto &e : want)
    {
      nt++; Str sid = e.first.first; if (split) sid += fmt ("#%d", e.first.second); const Seg *prev = NULL;
      for (auto &s : e.second) { nseg++; w += fmt ("%-27s %-28s %-28s ", sid.c_str (), timetext (s.start, tf).c_str (), timetext (s.end, tf).c_str ()); if (gaps) w += (prev ? gapform (gap_of (*prev, s)) : Str (" == ")) + " "; w += fmt ("%-3.3g %-lld\n", s.rate, (long long)s.cnt); prev = &s; }
    }
    w += fmt ("Total: %d trace(s) with %d segment(s)\n", nt, nseg);
  }
  else if (kind <= 3)
  {
    w += "       SourceID                      Last Sample                 Next Sample          Gap  Samples\n";
    for (auto &e : want) { const Seg *prev = NULL; for (auto &s : e.second) { if (prev) { double g = gap_of (*prev, s); if (!(hasmin && g < gmin) && !(hasmax && g > gmax)) { ngap++; double k = fabs (g) * prev->rate; k += g > 0 ? -1.0 : 1.0; w += fmt ("%-27s %-28s %-28s %-4s %-.8g\n", e.first.first.c_str (), timetext (prev->end, tf).c_str (), timetext (s.start, tf).c_str (), gapform (g).c_str (), k); } } prev = &s; } }
    w += fmt ("Total: %d gap(s)\n", ngap);
  }
  Str date; 
  { int y, doy, h, m, s; uint32_t nsec; int64_t t = (clock_base + tz_offset) * 1000000000LL; ns2cal (t, y, doy, h, m, s, nsec); date = fmt ("%04d,%03d", y, doy); }
  if (kind == 4)
  {
    w += "DCC|" + date + "\n"; std::map<Str, const RefRec *> codes; for (auto &r : q) codes[r.sid] = &r;
    for (auto &e : want) for (auto &s : e.second) { const RefRec &r = *codes[e.first.first]; w += fmt ("%s|%s|%s|%s|%s|%s||%.10g|%lld|||||||%s\n", r.net.c_str (), r.sta.c_str (), r.loc.c_str (), r.chan.c_str (), timetext (s.start, 0, true).c_str (), timetext (s.end, 0, true).c_str (), s.rate, (long long)s.cnt, date.c_str ()); }
  }
  Str cl = cmdline (a); log ("%s", cl.c_str ()); nontrivial ();
  MsiResult r = run_msi (a);
  NEED (r.status == 0, "msi:status", "%s ends with %d: %s", cl.c_str (), r.status, r.err.c_str ());
  if (kind == 4)
  { // the date of the run is the only thing that may differ
    size_t z = r.out.find ("DCC|"); if (z != Str::npos && r.out.size () > z + 12) { Str d = r.out.substr (z + 4, 8); if (d != date) { size_t p; while ((p = r.out.find (d)) != Str::npos && d.size () == date.size ()) r.out.replace (p, d.size (), date); } }
  }
  same_text (r.out, w, "msi:list", cl);
  if (unp) { Str b; for (auto &z : q) b += z.s.bytes (); NEED (file ("bin").data == b, "msi:samples", "%s stores other samples than the records have", cl.c_str ()); }
}
// inputs that cannot be read are said so, those before are complete
SCENARIO (C14, unreadable)
{
  sim_setup (); int n = 1 + choose (4); size_t mx = 64; std::vector<Stream> st; for (int i = 0; i < n; i++) { size_t m; st.push_back (mixed_stream (4, false, false, &m)); mx = std::max (mx, m); } tune_buffer (mx);
  int at = choose (n); bool snd = choose (2); std::vector<Str> a { "-o", "copy", "-s" }; if (snd) a.push_back ("-snd"); if (choose (2)) a.push_back (choose (2) ? "-T" : "-G");
  Str want, list; int what = choose (10); bool uselist = choose (3) == 2; bool anything = true; Str part;
  for (int i = 0; i < n; i++)
  {
    Str name = fmt ("in%d", i); Str arg; Str b = st[i].bytes; 
    if (i == at)
    {
      switch (what)
      {
      case 0: arg = "missing"; break;
      case 1: arg = make_source (SRC_FILE, b, name).name; file (name).open_errno = choose (2) ? EACCES : EMFILE; fault ("open-fail"); break;
      case 2: arg = make_source (SRC_FILE, b, name).name; file (name).rp.fail_at = choose (b.size ()); file (name).rp.err = EIO; fault ("read-error"); break;
      case 3: arg = make_source (SRC_FILE, "", name).name; break;
      case 4: { Str j (100 + choose (3000), choose (2) ? ' ' : '\0'); arg = make_source (SRC_FILE, j, name).name; break; }
      case 5: { Source s = make_source (SRC_URL, b, name); arg = s.path; Server &v = server (s.path); switch (choose (4)) { case 0: v.refuse = true; break; case 1: v.status = choose (2) ? 404 : 503; break; case 2: v.reset_at = choose (b.size ()); break; default: v.status = 500; } fault ("net-fault"); break; }
      case 6: arg = "@missinglist"; if (uselist) arg = "missing"; break;
      case 7: { if (uselist) { arg = "missing"; break; } Str l = "in9\nin8\nin7\n"; arg = "@blist"; make_source (SRC_FILE, l, "blist"); file ("blist").rp.fail_at = choose (l.size ()); for (const char *x : { "in9", "in8", "in7" }) make_source (SRC_FILE, b, x); fault ("read-error"); break; }
      case 8: { if (snd) { arg = "missing"; break; } Str j = b + Str (100 + choose (300), ' '); part = b; arg = make_source (SRC_FILE, j, name).name; if (st[i].recs.back ().fmt == 2 && !st[i].recs.back ().b1000) arg = "missing", part = ""; break; } // data, then no data
      default: { Source s = make_source (SRC_FILE, b, name); arg = s.name; file (name).rp.fail_at = choose (b.size ()); file (name).rp.err = EIO; file (name).rp.transient = false; fault ("read-error"); }
      }
      log ("input %d: %s (%d)", i, arg.c_str (), what);
    }
    else { Source s = make_source (choose (4) == 3 ? SRC_URL : SRC_FILE, b, name); arg = s.path; if (i < at) want += b; }
    if (uselist) list += arg + "\n"; else a.push_back (arg);
  }
  if (uselist) { make_source (SRC_FILE, list, "list"); a.push_back ("@list"); }
  Str cl = cmdline (a); log ("%s", cl.c_str ()); nontrivial ();
  MsiResult r = run_msi (a);
  NEED (r.status != 0, "msi:unreadable", "%s ends with 0 although input %d could not be read (%d)", cl.c_str (), at, what);
  NEED (r.err.size (), "msi:unreadable", "%s says nothing about the input %d it could not read (%d)", cl.c_str (), at, what);
  bool early = what == 6 || what == 7; if (uselist) early = false; if (early) return;
  Str got = has_file ("copy") ? file ("copy").data : "";
  NEED (got.compare (0, want.size (), want) == 0, "msi:unreadable", "%s: the copies of the inputs before the unreadable one are not complete", cl.c_str ());
  Str rest = got.substr (std::min (got.size (), want.size ())); if (part.size ()) NEED (rest == part, "msi:unreadable", "%s: %zu bytes copied of the %zu readable of input %d", cl.c_str (), rest.size (), part.size (), at);
  if (what == 2 || what == 9 || what == 5) NEED (st[at].bytes.compare (0, rest.size (), rest) == 0, "msi:unreadable", "%s: copied bytes of the failing input are not its first", cl.c_str ());
}
// header values as they stand in the record, by their offsets in the formats
static uint64_t field (const char *p, int n, bool be) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (uint8_t)p[be ? i : n - 1 - i]; return v; }
static Str bits (int b) { Str o = "["; for (int k = 7; k >= 0; k--) o += b >> k & 1 ? "1" : "0"; return o + "] 8 bits\n"; }
static Str named (int b, const char *const *N) { Str o; for (int k = 0; k < 8; k++) if (b >> k & 1) o += fmt ("                         [Bit %d] %s\n", k, N[k]); return o; }
static float flt (const char *p, bool be) { uint32_t x = field (p, 4, be); float f; memcpy (&f, &x, 4); return f; }
static Str btime (const char *p, bool be) { return fmt ("%d,%d,%d:%d:%d.%04d (unused: %d)\n", (int)field (p, 2, be), (int)field (p + 2, 2, be), (uint8_t)p[4], (uint8_t)p[5], (uint8_t)p[6], (int)field (p + 8, 2, be), (uint8_t)p[7]); }
static Str rawlines (const RefRec &r, int d)
{
  if (!d) return ""; Str o; const char *p = r.raw.data (); auto u8 = [&] (size_t k) { return (int)(uint8_t)p[k]; };
  static const char *U = "Undefined bit set";
  if (r.fmt == 3)
  {
    static const char *const F[] = { "Calibration signals present", "Time tag questionable", "Clock locked", U, U, U, U, U };
    if (d > 1) o += "Not swapping multi-byte quantities in header\n";
    double hz; uint64_t q = field (p + 16, 8, false); memcpy (&hz, &q, 8);
    o += "RECORD -- " + r.sid + "\n       record indicator: 'MS'\n         activity flags: " + bits (u8 (3)); if (d > 1) o += named (u8 (3), F);
    o += fmt ("             start time: %d,%d,%d:%d:%d.%09u\n   sample rate+/period-: %g\n          data encoding: %d\n    publication version: %d\n", (int)field (p + 8, 2, false), (int)field (p + 10, 2, false), u8 (12), u8 (13), u8 (14), (unsigned)field (p + 4, 4, false), hz, u8 (15), u8 (32));
    o += fmt ("      number of samples: %u\n                    CRC: 0x%X\n   length of identifier: %zu\nlength of extra headers: %zu\n length of data payload: %u\n", (unsigned)r.nsamp (), (unsigned)field (p + 28, 4, false), r.sid.size (), r.extra.size (), r.datalen);
    if (d > 1 && r.extra.size ()) { Str e = recline (r, 2); size_t z = e.find ("          extra headers:\n"); e = e.substr (z); Str out; size_t k = 0; bool first = true; while (k < e.size ()) { size_t n = e.find ('\n', k); Str l = e.substr (k, n - k); if (!first) l = l.substr (6); out += l + "\n"; first = false; k = n + 1; } o += out; }
    return o;
  }
  bool be = r.be; auto u16 = [&] (size_t k) { return (int)field (p + k, 2, be); };
  static const char *const A[] = { "Calibration signals present", "Time correction applied", "Beginning of an event, station trigger", "End of an event, station detrigger", "A positive leap second happened in this record", "A negative leap second happened in this record", "Event in progress", U };
  static const char *const I[] = { "Station volume parity error possibly present", "Long record read (possibly no problem)", "Short record read (record padded)", "Start of time series", "End of time series", "Clock locked", U, U };
  static const char *const Q[] = { "Amplifier saturation detected", "Digitizer clipping detected", "Spikes detected", "Glitches detected", "Missing/padded data present", "Telemetry synchronization error", "A digital filter may be charging", "Time tag is questionable" };
  if (d > 1) o += be ? "Swapping multi-byte quantities in header\n" : "Not swapping multi-byte quantities in header\n";
  auto txt = [&] (const char *what, int at, int n) { o += fmt ("%*s: '", 23, what) + r.raw.substr (at, n) + "'\n"; };
  o += "RECORD -- " + r.sid + "\n"; txt ("sequence number", 0, 6); txt ("data quality indicator", 6, 1); txt ("reserved", 7, 1); txt ("station code", 8, 5); txt ("location ID", 13, 2); txt ("channel codes", 15, 3); txt ("network code", 18, 2);
  o += "             start time: " + btime (p + 20, be);
  int sf = (int16_t)u16 (32), sm = (int16_t)u16 (34); double nom = sf > 0 ? sf : sf < 0 ? -1.0 / sf : 0; if (nom != 0) { if (sm > 0) nom *= sm; else if (sm < 0) nom = -1.0 * (nom / sm); }
  o += fmt ("      number of samples: %d\n     sample rate factor: %d  (%.10g samples per second)\n sample rate multiplier: %d\n", u16 (30), sf, nom, sm);
  if (d > 1) o += "         activity flags: " + bits (u8 (36)) + named (u8 (36), A) + "    I/O and clock flags: " + bits (u8 (37)) + named (u8 (37), I) + "     data quality flags: " + bits (u8 (38)) + named (u8 (38), Q);
  o += fmt ("   number of blockettes: %d\n        time correction: %d\n            data offset: %d\n first blockette offset: %d\n", u8 (39), (int32_t)field (p + 40, 4, be), u16 (44), u16 (46));
  for (size_t b = u16 (46); b;)
  {
    static const std::map<int, const char *> N = { { 100, "Sample Rate" }, { 200, "Generic Event Detection" }, { 201, "Murdock Event Detection" }, { 300, "Step Calibration" }, { 310, "Sine Calibration" }, { 320, "Pseudo-random Calibration" }, { 390, "Generic Calibration" }, { 395, "Calibration Abort" }, { 400, "Beam" }, { 500, "Timing" }, { 1000, "Data Only SEED" }, { 1001, "Data Extension" }, { 2000, "Opaque Data" } };
    int t = u16 (b), next = u16 (b + 2); o += fmt ("          BLOCKETTE %d: (%s)\n              next blockette: %d\n", t, N.count (t) ? N.at (t) : "Unknown", next);
    if (t == 100) { o += fmt ("          actual sample rate: %.10g\n", flt (p + b + 4, be)); if (d > 1) { o += "             undefined flags: " + bits (u8 (b + 8)); o += fmt ("          reserved bytes (3): %d,%d,%d\n", u8 (b + 9), u8 (b + 10), u8 (b + 11)); } }
    else if (t == 1000) { o += fmt ("                    encoding: %s (val:%d)\n                  byte order: %s endian (val:%d)\n               record length: %d (val:%d)\n", ms_encodingstr (r.enc), r.enc, p[b + 5] ? "Big" : "Little", u8 (b + 5), (int)r.raw.size (), u8 (b + 6)); if (d > 1) o += fmt ("               reserved byte: %d\n", u8 (b + 7)); }
    else if (t == 1001) { o += fmt ("              timing quality: %d%%\n                micro second: %d\n", u8 (b + 4), (int8_t)p[b + 5]); if (d > 1) o += fmt ("               reserved byte: %d\n", u8 (b + 6)); o += fmt ("                 frame count: %d\n", u8 (b + 7)); }
    else o += "\001"; // others: whatever lines up to the next blockette
    b = next;
  }
  return o;
}
// a text with \001 for lines that are not told here
static void same_raw (const Str &got, const Str &want, const char *cls, const Str &cmd)
{
  Str g = got, w = want, gg, ww; size_t a = 0, b = 0;
  while (b < w.size ())
  {
    if (w[b] == 1) { size_t n = a, e; while (n < g.size () && g[n] == ' ' && g.compare (n, 20, "          BLOCKETTE ") != 0 && (e = g.find ('\n', n)) != Str::npos) n = e + 1; NEED (n > a, cls, "%s prints nothing about a blockette", cmd.c_str ()); a = n; b++; continue; }
    size_t e = w.find ('\n', b); e = e == Str::npos ? w.size () : e + 1; size_t ge = g.find ('\n', a); ge = ge == Str::npos ? g.size () : ge + 1;
    if (w.substr (b, e - b) != g.substr (a, ge - a)) same_text (g.substr (a, ge - a), w.substr (b, e - b), cls, cmd); a = ge; b = e;
  }
  NEED (a == g.size (), cls, "%s prints more than the headers have: %s", cmd.c_str (), g.substr (a, 100).c_str ());
}
SCENARIO (C14, raw)
{
  sim_setup (); GenOpt o; o.extras = choose (2); size_t mx = 64; std::vector<RefRec> recs; int n = 1 + choose (5);
  for (int i = 0; i < n; i++) { RefRec r = gen_record (o); if (r.nsamp () > 20000 || !year_for_v2 (r.start) || r.sid.size () < 4) continue; if (r.fmt == 2) r.raw[7] = ' '; mx = std::max (mx, r.raw.size ()); recs.push_back (r); }
  if (recs.empty ()) return; tune_buffer (mx); nontrivial ();
  int d = choose (4) == 3 ? choose (2) : 2; bool prog = choose (3) == 2;
  if (prog)
  {
    Inputs x; std::vector<RefRec> q; for (auto &r : recs) if (!(r.fmt == 2 && !r.b1000)) q.push_back (r); if (q.empty ()) return;
    place (x, q); std::vector<Str> a { "-z" }; if (d == 1) a.push_back ("-p"); if (d == 2) a.push_back ("-pp"); bool off = choose (3) == 2; if (off) a.push_back ("-O");
    a.insert (choose (2) ? a.begin () : a.end (), x.args.begin (), x.args.end ()); Str w; for (auto &f : x.in) for (size_t i = 0; i < f.s.recs.size (); i++) { if (off) w += fmt ("%-10lld", (long long)f.offs[i]); w += rawlines (f.s.recs[i], d); }
    Str cl = cmdline (a); log ("%s", cl.c_str ()); MsiResult m = run_msi (a); NEED (m.status == 0 && m.err.find ("ERROR") == Str::npos, "msi:raw", "%s ends with %d: %s", cl.c_str (), m.status, m.err.c_str ());
    same_raw (m.out, w, "msi:raw", cl); return;
  }
  capture_logs ();
  for (auto &r : recs)
  {
    LogCapture::reset (); int sw = r.be ? 1 : 0; bool ask = choose (2); log ("%s: parse_raw details %d", describe (r).c_str (), d);
    const char *ro = ro_copy (r.raw);
    int rv = r.fmt == 3 ? ms_parse_raw3 (ro, r.raw.size (), d) : ms_parse_raw2 (ro, r.raw.size (), d, ask ? sw : -1); ro_free (ro);
    Str cl = fmt ("ms_parse_raw%d (details %d)", r.fmt, d);
    NEED (rv == 0 && LogCapture::diag.empty (), "raw:valid", "%s returns %d for a valid record: %s", cl.c_str (), rv, LogCapture::diag.c_str ());
    same_raw (LogCapture::out, rawlines (r, d), "raw:headers", cl);
  }
}
