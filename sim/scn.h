// Helpers shared by the scenarios of several properties
#pragma once
#include "ref.h"
// a mixed stream, including v2 records without blockette 1000 where their length is determined by what follows
Stream mixed_stream (int maxrec, bool big, bool nob1000, size_t *longest);
// the records returned are exactly records [from,to) of the stream
void expect_exact (const ReadOut &o, const Stream &s, size_t from, size_t to, bool unp, const char *what, bool checkoff = true);
// does p (48 bytes) look like a version 2 header to the library
bool v2hdr (const char *p);
// no position other than the given record starts looks like a version 2 or 3 record header
bool has_lookalike (const Str &bytes, const std::vector<int64_t> &starts);
// a cut of record r (0 < cut < length) whose remains can only be read as a partial record
size_t safe_cut (const RefRec &r, size_t cut);
// links, order, counts, coverage and look-up of a trace list, as documented; `what` names the moment
void check_list (const MS3TraceList *l, bool split, const char *what, bool packed = false); // packed: some samples were packed, times have moved on
// add records in the given order by one of several ways (0 calls, 1 buffers, 2 files); record lists carry index+1 in prvtptr for way 0
struct Tol { bool have = false, time = false, rate = false; double t = 0, r = 0; const MS3Tolerance *get (); };
void deliver (MS3TraceList **l, const std::vector<RefRec> &recs, const std::vector<size_t> &order, int way, bool unp, bool rl, bool split, bool heal, Tol &tol);
std::vector<size_t> permutation (size_t n);
// one segment a trace list should hold
struct Seg { int64_t start, end, cnt = 0; Str bytes; char type = 0; std::vector<size_t> recs; std::set<double> rates; double rate = 0; };
// channels cut into records with joins, tolerated and untolerated offsets, and what their list should hold; exact: whole ns periods, one rate per channel, overlaps too
typedef std::map<std::pair<Str, int>, std::vector<Seg>> Want;
void build_case (std::vector<RefRec> &recs, Want &want, std::map<Str, int> &maxver, Tol &tol, bool split, int nchan, int maxrec, bool exact = false);
void pick_tol (Tol &t);
// everything a list says about its segments, samples included
Str fullinfo (const MS3TraceList *l);
Str seg_state (const MS3TraceSeg *g); // all of one segment
