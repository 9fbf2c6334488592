// Operations on a converter as data, with a log of everything observable, for differential checks.
#pragma once
#include "ref.hpp"

struct Log {	// everything a caller can observe, in order
	std::vector<uint32_t> v; std::vector<std::string> where;
	void i (long x) { v.push_back ((uint32_t) x); v.push_back ((uint32_t) (x >> 32)); }
	void f (const float *p, long n) { size_t k = v.size (); v.resize (k + n); memcpy (v.data () + k, p, n * 4); }
};
enum Kind { PROC, SETR, RESET, BADRATIO, OVERLAP, NULLDATA, READ, BADREAD, ERRQ, CHANQ };
struct Op { int kind; long n = 0, m = 0; double r = 0; int eof = 0; };

// Per converter driver state: which part of which stream it is reading.  Data of a stream is a pure function of position.
enum { STREAM = 1 << 17 };
struct Src { long pos = 0; int blk = 0; bool ended = false; };	// pos: next frame; blk: index of next callback block
struct Script { std::vector<long> blocks; };			// callback block sizes; a 0 or the end of the list ends the stream; -n: n frames at a NULL pointer
struct Env {
	int ch; std::vector<float> x, out; Script script; Src *reader = NULL;
	void init (int c, long frames = STREAM) { ch = c; x = make_signal (c, frames); out.assign (1, 0); }
};
inline thread_local Env *env_now;
inline bool check_each = true;	// look at the red zones of all blocks after every operation
inline bool log_error = true;	// src_error after a read is part of the log
inline long env_callback (void *u, float **data)
{	Env *e = (Env *) u; if (e != env_now) mc::fail ("the callback got the wrong user pointer");
	Src *q = e->reader; long n = q->ended ? 0 : q->blk < (int) e->script.blocks.size () ? e->script.blocks[q->blk] : 0;
	q->blk++;
	if (n == 0) { q->ended = true; *data = NULL; return 0; }
	if (n < 0) { *data = NULL; return -n; }		// a count without data: the read has to fail
	*data = e->x.data () + q->pos * e->ch; q->pos += n;
	return n;
}
inline void trop (const Op &o, const char *who)
{	switch (o.kind)
	{	case PROC: break;
		case SETR: mc::tr (who[0] == 'c' ? "clone: src_set_ratio (%.17g)" : "src_set_ratio (%.17g)", o.r); break;
		case RESET: mc::tr (who[0] == 'c' ? "clone: src_reset ()" : "src_reset ()"); break;
		case BADRATIO: mc::tr ("src_process with src_ratio=1000 (refused)"); break;
		case OVERLAP: mc::tr ("src_process with data_out=data_in (refused)"); break;
		case NULLDATA: mc::tr ("src_process with data=NULL (refused)"); break;
		case READ: mc::tr (who[0] == 'c' ? "clone: src_callback_read (ratio=%.17g, frames=%.0f)" : "src_callback_read (ratio=%.17g, frames=%.0f)", o.r, o.m); break;
		case BADREAD: mc::tr ("src_callback_read with ratio=1000 (refused)"); break;
		default: break;
	}
}
inline void apply (Env &e, SRC_STATE *s, Src &src, const Op &o, Log *log, const char *who = "s")
{	env_now = &e; e.reader = &src;
	if ((long) e.out.size () < (o.m + 1) * e.ch) e.out.resize ((o.m + 1) * e.ch);
	trop (o, who);
	mc::cnt.trans++;
	switch (o.kind)
	{	case PROC:
		{	if (src.pos + o.n > STREAM) mc::fail ("internal: stream too short");
			if (who[0] == 'c') mc::tr ("  (on the clone:)");
			mc::R q = mc::process (s, e.x.data () + src.pos * e.ch, o.n, e.out.data (), o.m, o.r, o.eof);
			if (log) { log->i (q.err); if (!q.err) { log->i (q.used); log->i (q.gen); log->f (e.out.data (), q.gen * e.ch); } }
			if (!q.err) src.pos += q.used;
			break;
		}
		case SETR: { mc::InCall g; int r = src_set_ratio (s, o.r); if (log) log->i (r); break; }
		case RESET: { mc::InCall g; int r = src_reset (s); src.ended = false; if (log) log->i (r); break; }
		case BADRATIO: { mc::R q = mc::process (s, e.x.data (), 4, e.out.data (), 1, 1000.0, 0, true); if (log) log->i (q.err); if (q.err == 0) mc::fail ("ratio 1000 was accepted"); break; }
		case OVERLAP: { mc::R q = mc::process (s, e.out.data (), 1, e.out.data (), 1, 1.0, 0, true); if (log) log->i (q.err); break; }
		case NULLDATA: { mc::InCall g; int r = src_process (s, NULL); if (log) log->i (r); break; }
		case READ:
		{	long g; { mc::InCall ic; g = src_callback_read (s, o.r, o.m, e.out.data ()); }
			if (g < 0 || g > o.m) mc::fail ("src_callback_read returned %ld for %ld frames", g, o.m);
			if (log) { log->i (g); if (log_error) log->i (src_error (s)); log->i (src.pos); log->f (e.out.data (), g * e.ch); }
			break;
		}
		case BADREAD: { mc::InCall ic; long g = src_callback_read (s, 1000.0, 1, e.out.data ()); if (log) { log->i (g); log->i (src_error (s)); } break; }
		case ERRQ: { if (log) log->i (src_error (s)); break; }
		case CHANQ: { if (log) log->i (src_get_channels (s)); break; }
	}
	if (check_each) mc::arena_check ();
}
inline Op P (long n, long m, double r, int eof = 0) { Op o; o.kind = PROC; o.n = n; o.m = m; o.r = r; o.eof = eof; return o; }
inline Op K (int k, double r = 0) { Op o; o.kind = k; o.r = r; return o; }
inline Op Rd (long m, double r) { Op o; o.kind = READ; o.m = m; o.r = r; return o; }
inline std::string op_str (const Op &o)
{	switch (o.kind) { case PROC: return mc::str ("process(%ld,%ld,%g,%d)", o.n, o.m, o.r, o.eof); case SETR: return mc::str ("set_ratio(%g)", o.r); case RESET: return "reset"; case READ: return mc::str ("read(%ld,%g)", o.m, o.r); default: return mc::str ("op%d", o.kind); } }
inline void compare (const Log &a, const Log &b, const char *what)
{	mc::cnt.evals += a.v.size ();
	if (a.v == b.v) return;
	size_t i = 0; while (i < a.v.size () && i < b.v.size () && a.v[i] == b.v[i]) i++;
	float fa = 0, fb = 0; if (i < a.v.size ()) memcpy (&fa, &a.v[i], 4); if (i < b.v.size ()) memcpy (&fb, &b.v[i], 4);
	mc::fail ("%s: the observable results differ at item %zu (%zu and %zu items): %u (%g) expected, got %u (%g)", what, i, a.v.size (), b.v.size (), i < a.v.size () ? a.v[i] : 0, fa, i < b.v.size () ? b.v[i] : 0, fb);
}
inline std::vector<std::vector<Op>> probes_process (bool sinc, bool longp)
{	long a = sinc ? 150 : 5, b = sinc ? 40 : 3;
	std::vector<std::vector<Op>> v = {
		{ P (a, 30, 0.7), P (b, 50, 0.7), P (3, 1000, 0.7, 1), K (ERRQ) },
		{ P (1, 1, 1.0), P (1, 5, 1.0), P (a, 200, 1.0), P (0, 300, 1.0, 1), P (0, 5, 1.0, 1) },
		{ P (0, 5, 1.3), P (b, 20, 1.3), P (a, 60, 0.6), P (a, 100, 0.6) },
		{ P (0, 9, 1.0, 1), K (ERRQ) },
		{ K (SETR, 2.0), P (a, 60, 1.0), P (a, 300, 1.0) },
		{ P (a, 0, 0.5), P (a, 25, 2.0), P (2, 9, 2.0, 1) },
	};
	if (longp) v.push_back ({ P (12000, 11000, 0.9), P (12000, 11000, 0.9), P (30000, 30000, 0.9), P (10, 2000, 0.9, 1) });
	return v;
}
