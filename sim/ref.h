// Independent reference model of miniSEED records (encoder, decoder) and readers' results.
#pragma once
#include "sim.h"
#include <math.h>

struct Samples { char type = 0; std::vector<int32_t> i; std::vector<float> f; std::vector<double> d; Str t; size_t n () const { return type == 'i' ? i.size () : type == 'f' ? f.size () : type == 'd' ? d.size () : type == 't' ? t.size () : 0; }
  Str bytes () const { if (type == 'i') return Str ((const char *)i.data (), i.size () * 4); if (type == 'f') return Str ((const char *)f.data (), f.size () * 4); if (type == 'd') return Str ((const char *)d.data (), d.size () * 8); return t; } };

struct Event { int type; uint32_t seed; };  // an event, calibration or timing blockette; its content follows from the seed
struct RefRec {
  int fmt = 3; bool be = true;        // v2 header byte order (big endian?)
  int payload_be = -1;                // v2 payload order, -1 = as header
  Str net, sta, loc, chan;            // chan: 3 chars
  Str sid;
  int pubver = 1; int flags = 0;
  int64_t start = 0;                  // ns, effective
  double rate = 1;                    // header value: Hz, or negative period
  int enc = 11;
  Samples s;
  Str extra;
  Str raw;                            // encoded record
  uint32_t dataoff = 0, datalen = 0;
  std::map<Str, Str> evleaves;        // v2: those of `ev`
  std::map<Str, Str> leaves;          // v2: expected extra header leaves (path -> value)
  // v2 only
  int act = 0, io = 0, dq = 0; int32_t timecorr = 0; int tq = -1; bool b1000 = true, b1001 = false, b100 = false; int sr_f = 0, sr_m = 0; int reclen_exp = 0; int blk_order = 0; char rsv = ' ';
  int steim_style = 0; uint64_t steim_seed = 0;
  std::vector<Event> ev;              // v2: blockettes besides 100, 1000 and 1001, in chain order
  double hz () const { return rate < 0 ? -1.0 / rate : rate; }
  int64_t nsamp () const { return s.n (); }
  int64_t period () const;            // ns
  int64_t end () const;               // time of last sample
};
int64_t sample_time (int64_t start, int64_t n, double rate);

// calendar
void ns2cal (int64_t ns, int &y, int &doy, int &h, int &m, int &s, uint32_t &nsec);
int64_t cal2ns (int y, int doy, int h, int m, int s, uint32_t nsec);
bool year_for_v2 (int64_t t); // only these years are recognized in miniSEED 2 headers
int64_t some_time (int fmt, int64_t plain); // a start time: the given one, the end of a year, or some other century

uint32_t crc32c_ref (const void *p, size_t n);

// encoding: true on success, payload appended; for Steim consumes as many samples as fit in max bytes

bool dec_payload (int enc, const Str &pl, size_t n, bool be, Samples &out);

void encode3 (RefRec &r);             // fills raw from fields; s must fit
bool encode2 (RefRec &r);              // power of two length (reclen_exp or smallest); false if it does not fit
bool build (RefRec &r);                // encode according to fmt
void set_rate2 (RefRec &r, double rate);// pick a v2 representation; r.rate becomes what it denotes
bool flatten_json (const Str &s, std::map<Str, Str> &leaves);
// one series cut into records: everything but start/samples taken from the template
RefRec make_piece (const RefRec &tmpl, int64_t start, const Samples &s);
Samples slice (const Samples &s, size_t from, size_t n);
void append (Samples &a, const Samples &b);
// independent decoder of one record at p (n available): returns length or 0
size_t decode_rec (const char *p, size_t n, RefRec &r, Str *why = NULL);
bool decode_all (const Str &b, std::vector<RefRec> &v, Str *why = NULL);

// ---- generation -------------------------------------------------------------
struct GenOpt {
  bool v2 = true, v3 = true, text = true, zero = true, extras = true, bigrate = true, mixed_endian = false, odd_times = true;
  int max_samples = 400;
  int sidpool = 4;
  size_t max_len = 1u << 20;
  bool nob1000 = false;
  bool steim = true;
  bool events = true, legacy = true;  // v2 event blockettes; encodings that can only be read
};
RefRec gen_record (const GenOpt &o);
Samples gen_samples (char type, size_t n, int magnitude);
Str sid_for (int k, RefRec *r = NULL);

// ---- what a reader returned --------------------------------------------------
struct Got {
  Str sid, raw, extra, samples; char stype = 0; int64_t start = 0, cnt = 0, num = 0, off = 0; double rate = 0; int fmt = 0, flags = 0, enc = 0, pubver = 0, reclen = 0; uint32_t crc = 0, datalen = 0; int64_t end = 0; bool hasextra = false;
};
Got capture (const MS3Record *m, int64_t off);
extern bool capture_nul;            // damaged records: extra headers may hold zero bytes
Str diff_got (const Got &a, const RefRec &r, int64_t off, bool unpacked, bool checkoff = true); // empty = equal
Str diff_gg (const Got &a, const Got &b);
Str describe (const Got &g);
Str describe (const RefRec &r);

struct Stream { std::vector<RefRec> recs; Str bytes; std::vector<int64_t> offs; void add (const RefRec &r) { offs.push_back (bytes.size ()); bytes += r.raw; recs.push_back (r); } void junk (const Str &j) { bytes += j; } };
Stream gen_stream (const GenOpt &o, int maxrec);

// ---- sources ------------------------------------------------------------------
enum SrcKind { SRC_FILE, SRC_STDIN, SRC_FD, SRC_URL, SRC_NKINDS };
struct Source { SrcKind kind; Str name; Str path; MS3FileParam *msfp = NULL; bool opened = false; };
// put bytes behind a source of the given kind with a benign random delivery plan
Str any_name (const Str &base); // a name of a file, some of them like an option, a range or standard input
Source make_source (SrcKind k, const Str &bytes, const Str &name, bool plan = true);
const char *kindname (SrcKind k);
struct ReadOut { std::vector<Got> recs; int code = 0; int64_t streampos = 0, recordcount = 0; int calls = 0; };
// full read with the re-entrant reader; stop after maxrec records if >=0 (code MS_NOERROR then)
ReadOut read_all (Source &src, uint32_t flags, const MS3Selections *sel = NULL, int maxrec = -1, int api = 0);
const char *codename (int c);
void quiet_logs ();
struct LogCapture { static Str out, diag; static void reset (); };
void capture_logs ();

void tune_buffer (size_t need);    // read buffer size for this run, at least need
void sim_setup (int knobs = 1);   // common random configuration of a run (buffer size, prealloc, allocator)
Str seginfo (const MS3TraceList *l);
char api_sampletype (int enc);
