// Runner: worker loop, minimiser, replay.
#include "simint.h"
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <unordered_set>

static int errfd = -1;
static const Scenario *find (const Str &prop, const Str &name)
{
  for (auto &s : scenarios ()) if (prop == s.prop && name == s.name) return &s;
  return NULL;
}
static std::vector<const Scenario *> for_prop (const Str &p)
{
  std::vector<const Scenario *> v;
  for (auto &s : scenarios ()) if (p == s.prop) v.push_back (&s);
  std::sort (v.begin (), v.end (), [] (const Scenario *a, const Scenario *b) { return strcmp (a->name, b->name) < 0; });
  return v;
}
static uint64_t mix (uint64_t a, uint64_t b) { sim::Rng r (a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull)); r.next (); return r.next (); }
static uint64_t strh (const Str &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Outcome { bool bad = false; bool err = false; Str cls, msg; uint64_t h = 0; };
static Str slurp_err ()
{
  Str s; char b[8192]; ssize_t n; off_t o = 0;
  while ((n = pread (errfd, b, sizeof b, o)) > 0) { s.append (b, n); o += n; if (s.size () > 200000) break; }
  return s;
}
static Outcome exec_one (const Scenario *sc, uint64_t seed, const std::vector<uint32_t> *in, bool keep = false)
{
  size_t hdr = offsetof (Shm, in);
  (void)hdr;
  shm->prng = seed; shm->replay = in ? 1 : 0; shm->nin = 0; shm->npos = 0; shm->ntrace = 0;
  if (in) { shm->nin = std::min<size_t> (in->size (), MAXTRACE); memcpy (shm->in, in->data (), shm->nin * 4); }
  shm->evhash = 1469598103934665603ull; shm->steps = 0; shm->step_limit = 400000000ull; shm->vtime = 0; shm->switches = 0; shm->schedhash = 0; shm->nontrivial = 0;
  memset (shm->cnt, 0, sizeof shm->cnt); shm->cls[0] = 0; shm->msg[0] = 0; shm->harness_err = 0; shm->loglen = 0;
  memset (shm->cov, 0, sizeof shm->cov);
  if (errfd >= 0) { if (ftruncate (errfd, 0)) {} }
  (void)keep;
  pid_t c = fork ();
  if (c < 0) { fprintf (stderr, "fork failed\n"); exit (3); }
  if (c == 0)
  {
    if (errfd >= 0) { lseek (errfd, 0, SEEK_SET); dup2 (errfd, 2); }
    alarm (120);
    sim::run_init ();
    sc->fn ();
    _exit (0);
  }
  int st; struct timespec t0; clock_gettime (CLOCK_MONOTONIC, &t0);
  while (waitpid (c, &st, 0) < 0 && errno == EINTR) ;
  Outcome o;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0) ;
  else if (WIFEXITED (st) && WEXITSTATUS (st) == 1 && shm->cls[0]) { o.bad = true; o.cls = shm->cls; o.msg = shm->msg; }
  else if (WIFEXITED (st) && WEXITSTATUS (st) == 77)
  {
    Str e = slurp_err ();
    o.bad = true; o.cls = "crash:sanitizer";
    size_t p = e.find ("ERROR: AddressSanitizer: ");
    if (p != Str::npos)
    {
      size_t q = e.find_first_of (" \n", p + 25);
      o.cls = "crash:" + e.substr (p + 25, q - p - 25);
      Str l = e.substr (p, e.find ('\n', p) - p);
      for (const char *k : { " on address 0x", " on unknown address 0x" }) { size_t z = l.find (k); if (z != Str::npos) { l = l.substr (0, z); break; } }
      o.msg = l;
      size_t r = e.find ("READ of size"), w = e.find ("WRITE of size");
      if (r != Str::npos) o.msg += " " + e.substr (r, e.find (" at", r) - r);
      if (w != Str::npos) o.msg += " " + e.substr (w, e.find (" at", w) - w);
      // first frames
      for (int f = 0; f < 6; f++) { Str t = sim::fmt ("\n    #%d ", f); size_t a = e.find (t, p); if (a == Str::npos) break; size_t in_ = e.find (" in ", a); size_t nl = e.find ('\n', a + 2); if (in_ != Str::npos && in_ < nl) { Str fn = e.substr (in_ + 4, nl - in_ - 4); o.msg += "; " + fn; } }
    }
    else { p = e.find ("runtime error: "); if (p != Str::npos) { o.cls = "crash:ub"; o.msg = e.substr (p, e.find ('\n', p) - p); } else o.msg = e.substr (0, 300); }
  }
  else if (WIFSIGNALED (st) && WTERMSIG (st) == SIGALRM) { o.bad = true; o.cls = "hang:wallclock"; o.msg = "no completion within 120 s"; }
  else if (WIFSIGNALED (st)) { o.bad = true; o.cls = sim::fmt ("crash:signal%d", WTERMSIG (st)); o.msg = "the process was killed by a signal"; }
  else { o.err = true; o.cls = "harness-error"; o.msg = shm->msg[0] ? Str (shm->msg) : sim::fmt ("exit %d: ", WEXITSTATUS (st)) + slurp_err ().substr (0, 800); }
  o.h = shm->evhash ^ (shm->steps * 0x9E3779B97F4A7C15ull) ^ mix (shm->ntrace, shm->vtime) ^ shm->schedhash;
  if (o.bad && o.cls == "hang:wallclock") o.h = 1;
  return o;
}
static Str jesc (const Str &s)
{
  Str r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) r += sim::fmt ("\\u%04x", c);
    else r += c;
  }
  return r;
}
static double now () { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t run_seed (uint64_t seed, const Str &prop, uint64_t r) { return mix (mix (seed, strh (prop)), r); }

int main (int argc, char **argv)
{
  int pers = personality (0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv ("SIM_NOPERS"))
  {
    if (personality (pers | ADDR_NO_RANDOMIZE) >= 0) { setenv ("SIM_NOPERS", "1", 1); execv ("/proc/self/exe", argv); }
  }
  struct rlimit rl = { 0, 0 }; setrlimit (RLIMIT_CORE, &rl);
  shm = (Shm *)mmap (NULL, sizeof (Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<Str, Str> o;
  Str mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
  Str prop = o["prop"];
  uint64_t seed = strtoull (o["seed"].c_str (), 0, 10);
  errfd = memfd_create ("err", 0);
  auto V = for_prop (prop);
  if (mode == "list") { for (auto &s : scenarios ()) printf ("%s %s\n", s.prop, s.name); return 0; }
  if (mode == "run")
  {
    uint64_t start = strtoull (o["start"].c_str (), 0, 10), stride = strtoull (o["stride"].c_str (), 0, 10), runs = strtoull (o["runs"].c_str (), 0, 10);
    double tmax = atof (o["time"].c_str ()); double t0 = now ();
    std::vector<Str> known;
    { Str k = o["known"]; size_t p = 0; while (p < k.size ()) { size_t q = k.find ('\n', p); if (q == Str::npos) q = k.size (); if (q > p) known.push_back (k.substr (p, q - p)); p = q + 1; } }
    if (V.empty ()) { printf ("{\"error\":\"no scenario for %s\"}\n", prop.c_str ()); return 3; }
    std::map<Str, uint64_t> cnt; std::map<Str, uint64_t> per; std::map<Str, uint64_t> perruns; std::map<Str, double> pert;
    std::unordered_set<uint64_t> dist, scheds; std::vector<uint8_t> cov (COVSZ, 0);
    uint64_t n = 0, nt = 0, steps = 0, vt = 0, sw = 0, trunc = 0, allh = 0; std::map<Str, uint64_t> knownhits; std::map<Str, Str> kmsg;
    Str sample; int nsample = 0; Str viol; double tv = 0;
    bool haserr = false; Str errmsg; bool capped = false; uint64_t subruns = strtoull (o["sub"].c_str (), 0, 10), subh = 0, subn = 0; Str stopf = o["stop"];
    for (uint64_t r = start; r < runs; r += stride)
    {
      if (now () - t0 > tmax) { capped = true; break; }
      if (!stopf.empty ()) { FILE *sf = fopen (stopf.c_str (), "r"); if (sf) { unsigned long long lim = 0; int g = fscanf (sf, "%llu", &lim); fclose (sf); if (g == 1 && r > lim) break; } }
      const Scenario *sc = V[r % V.size ()];
      double ta = now ();
      Outcome oc = exec_one (sc, run_seed (seed, prop, r), NULL);
      pert[sc->name] += now () - ta; perruns[sc->name]++;
      n++; steps += shm->steps; vt += shm->vtime; sw += shm->switches; if (shm->ntrace >= MAXTRACE) trunc++;
      allh ^= mix (r, oc.h); if (r < subruns) { subh ^= mix (r, oc.h); subn++; }
      if (o.count ("dump")) printf ("%llu %016llx %s\n", (unsigned long long)r, (unsigned long long)oc.h, oc.cls.c_str ());
      for (int i = 0; i < MAXCNT && shm->cnt[i].name[0]; i++) { cnt[shm->cnt[i].name] += shm->cnt[i].n; per[shm->cnt[i].name]++; }
      uint64_t h = strh (sc->name);
      for (int i = 0; i < COVSZ; i++) { uint8_t c = shm->cov[i]; if (!c) continue; uint8_t b = c == 1 ? 1 : c == 2 ? 2 : c <= 4 ? 4 : c <= 16 ? 8 : c <= 64 ? 16 : 32; cov[i] |= b; h = mix (h, (uint64_t)i * 64 + b); }
      if (shm->switches) { scheds.insert (shm->schedhash); h = mix (h, shm->schedhash); }
      if (shm->nontrivial) { nt++; dist.insert (h); }
      if (nsample < 3 && shm->nontrivial && shm->loglen)
      {
        if (nsample) sample += ",";
        sample += sim::fmt ("{\"run\":%llu,\"scenario\":\"%s\",\"choices\":%u,\"steps\":%llu,\"log\":\"", (unsigned long long)r, sc->name, shm->ntrace, (unsigned long long)shm->steps) + jesc (Str (shm->logbuf, std::min<uint32_t> (shm->loglen, 1500))) + "\"}";
        nsample++;
      }
      if (oc.err) { haserr = true; errmsg = sim::fmt ("run %llu (%s): ", (unsigned long long)r, sc->name) + oc.msg; break; }
      if (oc.bad)
      {
        Str sig = Str (sc->name) + "|" + oc.cls;
        bool kn = false;
        for (auto &k : known) if (k == sig) { knownhits[k]++; kmsg[k] = oc.msg; kn = true; }
        if (kn) continue;
        viol = sim::fmt ("{\"run\":%llu,\"scenario\":\"%s\",\"cls\":\"", (unsigned long long)r, sc->name) + jesc (oc.cls) + "\",\"msg\":\"" + jesc (oc.msg) + "\"}";
        tv = now () - t0;
        if (!o.count ("keepgoing"))
        {
          if (!stopf.empty ())
          {
            unsigned long long lim = ~0ull; FILE *sf = fopen (stopf.c_str (), "r"); if (sf) { if (fscanf (sf, "%llu", &lim) != 1) lim = ~0ull; fclose (sf); }
            if (r < lim) { Str t = stopf + sim::fmt (".%d", (int)getpid ()); sf = fopen (t.c_str (), "w"); if (sf) { fprintf (sf, "%llu\n", (unsigned long long)r); fclose (sf); rename (t.c_str (), stopf.c_str ()); } }
          }
          break;
        }
        printf ("VIOL %s\n", viol.c_str ());
      }
    }
    int edges = 0; for (auto c : cov) if (c) edges++;
    Str out = sim::fmt ("{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"vtime_ns\":%llu,\"switches\":%llu,\"edges\":%d,\"wall\":%.3f,\"truncated\":%llu,\"capped\":%s,\"allhash\":\"%016llx\",\"subhash\":\"%016llx\",\"subruns\":%llu,\"tviol\":%.3f",
      (unsigned long long)n, (unsigned long long)nt, (unsigned long long)steps, (unsigned long long)vt, (unsigned long long)sw, edges, now () - t0, (unsigned long long)trunc, capped ? "true" : "false", (unsigned long long)allh, (unsigned long long)subh, (unsigned long long)subn, tv);
    out += ",\"counts\":{"; bool f = true;
    for (auto &c : cnt) { out += sim::fmt ("%s\"%s\":[%llu,%llu]", f ? "" : ",", jesc (c.first).c_str (), (unsigned long long)c.second, (unsigned long long)per[c.first]); f = false; }
    out += "},\"scenarios\":{"; f = true;
    for (auto &c : perruns) { out += sim::fmt ("%s\"%s\":[%llu,%.2f]", f ? "" : ",", c.first.c_str (), (unsigned long long)c.second, pert[c.first]); f = false; }
    out += "},\"known\":{"; f = true;
    for (auto &c : knownhits) { out += sim::fmt ("%s\"%s\":%llu", f ? "" : ",", jesc (c.first).c_str (), (unsigned long long)c.second); f = false; }
    out += "},\"samples\":[" + sample + "],\"dist\":["; f = true;
    for (auto d : dist) { out += sim::fmt ("%s\"%llx\"", f ? "" : ",", (unsigned long long)d); f = false; }
    out += "],\"scheds\":["; f = true;
    for (auto d : scheds) { out += sim::fmt ("%s\"%llx\"", f ? "" : ",", (unsigned long long)d); f = false; }
    out += "]";
    if (haserr) out += ",\"error\":\"" + jesc (errmsg) + "\"";
    if (!viol.empty ()) out += ",\"violation\":" + viol;
    out += "}\n";
    FILE *fp = fopen (o["out"].c_str (), "w");
    if (!fp) { fputs (out.c_str (), stdout); return 0; }
    fputs (out.c_str (), fp); fclose (fp);
    return 0;
  }
  if (mode == "shrink")
  {
    uint64_t r = strtoull (o["run"].c_str (), 0, 10);
    double tmax = atof (o["time"].c_str ()), t0 = now ();
    const Scenario *sc = V[r % V.size ()];
    Outcome a = exec_one (sc, run_seed (seed, prop, r), NULL);
    std::vector<uint32_t> best; for (uint32_t i = 0; i < shm->ntrace; i++) best.push_back (shm->trace[i].v);
    uint32_t orig = best.size ();
    Outcome b = exec_one (sc, run_seed (seed, prop, r), NULL);
    if (!a.bad || !b.bad || a.h != b.h || a.cls != b.cls) { printf ("NONDETERMINISTIC %d %d %016llx %016llx %s %s\n", a.bad, b.bad, (unsigned long long)a.h, (unsigned long long)b.h, a.cls.c_str (), b.cls.c_str ()); return 4; }
    Outcome c = exec_one (sc, 0, &best);
    if (!c.bad || c.cls != a.cls) { printf ("TRACE-NOT-REPRODUCING %s\n", c.cls.c_str ()); return 4; }
    int execs = 0;
    bool slow = a.cls.compare (0, 4, "hang") == 0;
    auto same = [&] (const std::vector<uint32_t> &t) -> bool {
      execs++;
      Outcome x = exec_one (sc, 0, &t);
      return x.bad && x.cls == a.cls;
    };
    auto timeup = [&] { return now () - t0 > tmax || execs > (slow ? 60 : 6000); };
    auto used = [&] { // drop unused tail
      while (!best.empty () && best.back () == 0) best.pop_back ();
    };
    bool progress = true;
    while (progress && !timeup ())
    {
      progress = false;
      used ();
      // delete blocks
      for (size_t k = std::max<size_t> (1, best.size () / 2); k >= 1 && !timeup (); k /= 2)
        for (size_t i = 0; i + k <= best.size () && !timeup ();)
        {
          std::vector<uint32_t> t (best.begin (), best.begin () + i); t.insert (t.end (), best.begin () + i + k, best.end ());
          if (same (t)) { best = t; progress = true; } else i += k;
        }
      // zero blocks
      for (size_t k = std::max<size_t> (1, best.size () / 2); k >= 1 && !timeup (); k /= 2)
        for (size_t i = 0; i + k <= best.size () && !timeup (); i += k)
        {
          bool nz = false; for (size_t j = i; j < i + k; j++) if (best[j]) nz = true;
          if (!nz) continue;
          std::vector<uint32_t> t = best; for (size_t j = i; j < i + k; j++) t[j] = 0;
          if (same (t)) { best = t; progress = true; }
        }
      // smaller values
      for (size_t i = 0; i < best.size () && !timeup (); i++)
      {
        uint32_t lo = 0, hi = best[i];
        while (hi > 0 && lo < hi && !timeup ())
        {
          uint32_t mid = lo + (hi - lo) / 2;
          std::vector<uint32_t> t = best; t[i] = mid;
          if (same (t)) { best = t; hi = mid; progress = true; } else lo = mid + 1;
        }
      }
    }
    used ();
    Outcome fin = exec_one (sc, 0, &best);
    if (!fin.bad || fin.cls != a.cls) { printf ("SHRINK-LOST %s\n", fin.cls.c_str ()); return 4; }
    FILE *fp = fopen (o["out"].c_str (), "w");
    if (!fp) { printf ("cannot write %s\n", o["out"].c_str ()); return 3; }
    fprintf (fp, "{\n \"property\": \"%s\",\n \"scenario\": \"%s\",\n \"class\": \"%s\",\n \"message\": \"%s\",\n \"seed\": %llu,\n \"run\": %llu,\n \"original_choices\": %u,\n \"shrink_executions\": %d,\n \"hash\": \"%016llx\",\n \"trace\": [",
      prop.c_str (), sc->name, jesc (fin.cls).c_str (), jesc (fin.msg).c_str (), (unsigned long long)seed, (unsigned long long)r, orig, execs, (unsigned long long)fin.h);
    for (size_t i = 0; i < best.size (); i++) fprintf (fp, "%s%u", i ? "," : "", best[i]);
    fprintf (fp, "],\n \"log\": [\n");
    Str lg (shm->logbuf, shm->loglen); size_t p = 0; bool f = true; int lines = 0;
    while (p < lg.size () && lines < 400) { size_t q = lg.find ('\n', p); if (q == Str::npos) q = lg.size (); fprintf (fp, "%s  \"%s\"", f ? "" : ",\n", jesc (lg.substr (p, q - p)).c_str ()); f = false; p = q + 1; lines++; }
    fprintf (fp, "\n ]\n}\n");
    fclose (fp);
    printf ("SHRUNK %u -> %zu choices, %d executions\n", orig, best.size (), execs);
    return 0;
  }
  if (mode == "replay")
  {
    // trace passed as comma separated list in a file produced by the driver
    FILE *fp = fopen (o["trace"].c_str (), "r");
    if (!fp) { printf ("cannot open\n"); return 3; }
    std::vector<uint32_t> t; unsigned x; while (fscanf (fp, "%u,", &x) == 1) t.push_back (x);
    fclose (fp);
    const Scenario *sc = find (prop, o["scenario"]);
    if (!sc) { printf ("no such scenario\n"); return 3; }
    Outcome a = exec_one (sc, 0, &t);
    fwrite (shm->logbuf, 1, shm->loglen, stdout);
    Str e = slurp_err ();
    if (!e.empty () && !o.count ("quiet")) fprintf (stderr, "%s", e.c_str ());
    printf ("RESULT %s|%s|%016llx\n", a.bad ? a.cls.c_str () : a.err ? "harness-error" : "ok", jesc (a.msg).c_str (), (unsigned long long)a.h);
    return a.bad ? 1 : a.err ? 3 : 0;
  }
  if (mode == "one")
  {
    uint64_t r = strtoull (o["run"].c_str (), 0, 10);
    const Scenario *sc = V[r % V.size ()];
    Outcome a = exec_one (sc, run_seed (seed, prop, r), NULL);
    fwrite (shm->logbuf, 1, shm->loglen, stdout);
    printf ("%s\n", slurp_err ().c_str ());
    printf ("RESULT %s %s|%s|%016llx choices %u steps %llu\n", sc->name, a.bad ? a.cls.c_str () : a.err ? "harness-error" : "ok", a.msg.c_str (), (unsigned long long)a.h, shm->ntrace, (unsigned long long)shm->steps);
    return a.bad ? 1 : a.err ? 3 : 0;
  }
  fprintf (stderr, "usage: sim list|run|shrink|replay|one\n");
  return 2;
}
