// C21: endless streams run forever without change of behaviour.
#include "ops.hpp"
#include "varmodel.hpp"
using namespace mc;
struct Frac { long p, q; };	// ratio p/q
static bool exact (Frac f) { double r = (double) f.p / f.q, s = 1.0 / r; return (f.p & (f.p - 1)) == 0 && s * f.p == f.q && s * 1099511627776.0 == floor (s * 1099511627776.0); }
static long gcd_ (long a, long b) { while (b) { long t = a % b; a = b; b = t; } return a; }
struct Call { long n, m; };
static std::string pat_str (const std::vector<Call> &p) { std::string s; for (auto &c : p) s += str ("(%ld,%ld)", c.n, c.m); return s; }

// An endless periodic signal through a fixed cyclic pattern of calls, until the complete state repeats: from there on the
// run goes round in a circle for ever.  Patterns whose states do not repeat (ratios that are not exact in binary) are followed for `limit` frames.
struct Watch {
	int conv, ch; double r; Frac f; long T, P; std::vector<float> x, tab; std::vector<char> have; double tol;
	long i = 0, o = 0;	// frames consumed and produced
	void init (int c, int k, Frac fr, long period)
	{	conv = c; ch = k; f = fr; r = (double) f.p / f.q; T = period; long g = gcd_ (T * f.p, f.q); P = T * f.p / g;	// output period: P frames for an input span that is a multiple of T
		x = make_signal (ch, T); std::vector<float> big; long need = 70000; long reps = need / T + 3; for (long j = 0; j < reps; j++) big.insert (big.end (), x.begin (), x.begin () + T * ch); x.swap (big);
		tab.assign (P * ch, 0); have.assign (P, 0); tol = exact (f) ? 1e-6 : is_sinc (conv) ? 3e-4 : 3e-6;
	}
	const float *at (long pos) const { return x.data () + (pos % T) * ch; }
	void frame (long k, const float *v)
	{	double p = (double) k * f.q / f.p, span = is_sinc (conv) ? half_span (conv, r) + 1 : 2; if (p < span) return;	// before that the start of the stream is heard
		long s = k % P; cnt.evals += ch;
		double fr = (double) (k * f.q % f.p) / f.p; bool edge = conv == ZOH && !exact (f) && near_int (fr, 1e-7);
		if (edge) return;
		if (!have[s]) { have[s] = 1; memcpy (&tab[s * ch], v, ch * 4); check_value (k, v); return; }
		for (int c = 0; c < ch; c++) if (!(fabs (v[c] - tab[s * ch + c]) <= tol)) fail ("output frame %ld channel %d is %.9g, one period of the signal earlier it was %.9g", k, c, v[c], tab[s * ch + c]);
	}
	void check_value (long k, const float *v)
	{	__int128 num = (__int128) k * f.q; long b = (long) (num / f.p); double fr = (double) (long) (num % f.p) / f.p;
		for (int c = 0; c < ch; c++)
		{	auto X = [&] (long j) { return j < 0 ? 0.0 : (double) x[(j % T) * ch + c]; }; double w, t = 2e-6;
			if (is_sinc (conv)) { w = sinc_at (conv, r, b, fr, X, &t); t = std::max (t, 2e-6); if (!exact (f)) t *= 2; } else if (conv == LIN) { w = lin_at (b, fr, X); t = 3e-6; } else w = X (b - 1);
			if (!(fabs (v[c] - w) <= t)) fail ("output frame %ld channel %d is %.9g, it should be %.9g", k, c, v[c], w);
		}
	}
	void balance ()	// frames produced against frames consumed
	{	double slack = is_sinc (conv) ? half_span (conv, r) * 2 + 70000 : 3 + 1 / r; double d = i - (double) o * f.q / f.p; cnt.evals++;
		if (d > slack || d < -3 - 1 / r) fail ("%ld frames were consumed for %ld produced: the ratio %ld/%ld drifts", i, o, f.p, f.q);
	}
};
// With `patient`, only the ends of each block are checked, and a run that does not close is followed beyond 2^31 frames or so.
static void lasso (int conv, int ch, Frac f, std::vector<Call> pat, long T, bool cb, long limit, bool patient = false)
{	add (str ("%s%s %s ch=%d ratio=%ld/%ld pattern %s period %ld", patient ? "patient " : "", cb ? "callback" : "process", conv_name (conv), ch, f.p, f.q, pat_str (pat).c_str (), T), [=] () {
		static Watch w; w = Watch (); w.init (conv, ch, f, T); std::unordered_map<uint64_t, std::pair<long,long>> seen; long mem = -1, calls = 0; long cap = 1; for (auto &c : pat) cap = std::max (cap, c.m);
		std::vector<float> out ((cap + 1) * ch); static std::vector<Call> cpat; cpat = pat; static long cbi; cbi = 0; static long given; given = 0; int err; SRC_STATE *s; trace_len = 0; static Watch *W; W = &w;
		tr ("endless periodic signal, period %.0f", T);
		if (cb) { InCall g; s = src_callback_new ([] (void *, float **d) -> long { long n = cpat[cbi].n; cbi = (cbi + 1) % cpat.size (); if (n == 0) n = 1; *d = (float *) W->at (given); given += n; return n; }, conv, ch, &err, NULL); if (!s) fail ("src_callback_new failed"); }
		else s = make (conv, ch);
		bool closed = false; long idle = 0; if (patient) hang_ticks = 600; std::unordered_set<uint64_t> cheap;
		for (;;)
		{			// callback mode: saved_data points into w.x at a place that depends on `given` alone
			// first a hash of the beginning of memory (the converter's structures) only; the complete state when that comes back
			cnt.states++;
			if (exact (f) && !(patient && calls > 1300000))
			{	uint64_t pos = mix (w.i % T, mix (cbi, given % T)), c = hash_bytes (arena, std::min (arena->used, (uint64_t) 1600), pos);
				if (!cheap.insert (c).second)
				{	uint64_t h = state_hash (pos); auto it = seen.find (h);
					if (it != seen.end ())
					{	long di = w.i - it->second.first, dn = w.o - it->second.second; closed = true; cnt.traces++; cnt.extra[0]++; cnt.nontriv += dn > 0;
						if (dn <= 0 || di <= 0) fail ("the pattern goes round in a circle without making progress (%ld frames in, %ld out)", di, dn);
						if ((__int128) dn * f.q != (__int128) di * f.p) fail ("in the closed cycle %ld frames are produced for %ld consumed: not the ratio %ld/%ld", dn, di, f.p, f.q);
						break;
					}
					seen[h] = { w.i, w.o };
				}
			}
			long o0 = w.o, i0 = w.i;
			for (size_t k = 0; k < pat.size (); k++)
			{	long g;
				if (cb) { InCall ic; g = src_callback_read (s, w.r, pat[k].m, out.data ()); if (g != pat[k].m) fail ("src_callback_read returned %ld of %ld frames in an endless stream (error %d)", g, pat[k].m, src_error (s)); w.i = given; }
				else { R q = process_ok (s, w.at (w.i), pat[k].n, out.data (), pat[k].m, w.r, 0, true); g = q.gen; w.i += q.used; }
				for (long j = 0; j < g; j++) if (!patient || j < 3 || j >= g - 3 || calls < 100) w.frame (w.o + j, &out[j * ch]);
				w.o += g; cnt.trans++; calls++;
			}
			if (w.o == o0 && w.i == i0) { if (++idle > 3) fail ("the pattern makes no progress"); } else idle = 0;
			if (!cb) w.balance ();
			if (calls == 1 || (long) arena->live_bytes > mem) { if (w.i > 200000 && mem >= 0 && (long) arena->live_bytes > mem) fail ("memory grows: %ld bytes, then %ld", mem, (long) arena->live_bytes); mem = arena->live_bytes; }
			if (w.o > limit || w.i > limit * 20) break;
		}
		arena_check (); if (!closed) { cnt.extra[1]++; if (getenv ("MC_SHOW")) fprintf (stderr, "open: %s\n", tasks[cur_task].name.c_str ()); }
		else { tr ("... the complete state repeated after %.0f calls, %.0f frames in and %.0f out", calls, w.i, w.o); sample_trace ("a closed cycle"); }
		cnt.ops += 0;
	});
}
// A cycle of ratios, for a long time: the frames consumed follow the model.
static void varying (int conv, int ch, std::vector<double> rs, long calls)
{	add (str ("cycle of ratios from %g, %s ch=%d", rs[0], conv_name (conv), ch), [=] () {
		std::vector<float> x = make_signal (ch, 70000), out (4000 * ch); SRC_STATE *s = make (conv, ch); VarModel m; m.conv = conv; long used = 0, mem = 0; double rmin = 1; for (double r : rs) rmin = std::min (rmin, r);
		for (long k = 0; k < calls; k++)
		{	double r = rs[k % rs.size ()]; long cap = 40 + (k * 7) % 31, n = (long) (cap / std::min (r, m.last > 0 ? m.last : r)) + 3; n = std::min (n, 20000l);
			R q = process_ok (s, x.data () + (used % 40000) * ch, n, out.data (), cap, r, 0, true); used += q.used; cnt.trans++; cnt.states++; cnt.evals++; cnt.nontriv += q.gen > 0;
			m.frames (q.gen, cap, r, [] (long, VarModel::Pt) {});
			double d = (double) (used - m.b) - m.f, hi = is_sinc (conv) ? half_span (conv, rmin) * 2 + 70000 : 1e-6, lo = is_sinc (conv) ? -1 : -1 - 2 / rmin - 1e-6;
			if (d > hi || d < lo) fail ("after %ld calls with a changing ratio %ld frames were consumed but the position is %.6f", k + 1, used, m.b + m.f);
			for (long j = 0; j < q.gen * ch; j++) if (!(fabs (out[j]) < 3)) fail ("output %g", out[j]);
			if (k == 2000) mem = arena->live_bytes; if (k > 2000 && (long) arena->live_bytes > mem) fail ("memory grows");
		}
		arena_check (); cnt.traces++;
	});
}
// ------------------------------------------------------------------ huge calls
struct Map { char *b; size_t tot, chunk; };
static Map map_again (size_t bytes, size_t chunk)	// one block of memory mapped over and over
{	Map m; m.chunk = chunk; m.tot = (bytes + chunk - 1) / chunk * chunk + chunk; int fd = memfd_create ("c21", 0); if (fd < 0 || ftruncate (fd, chunk)) fail ("internal: memfd");
	m.b = (char *) mmap (NULL, m.tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m.b == MAP_FAILED) fail ("internal: mmap");
	for (size_t o = 0; o < m.tot; o += chunk) if (mmap (m.b + o, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) fail ("internal: mmap");
	close (fd); return m;
}
static void huge_zl (int conv, int ch, double r, long n, long m, int how)	// how: 0 process, 1 simple, 2 callback
{	add (str ("huge call %d %s ch=%d ratio=%g, %ld frames in, %ld out", how, conv_name (conv), ch, r, n, m), [=] () {
		hang_ticks = 600; size_t chunk = (size_t) 4096 * ch * 4096 / (ch > 64 ? 64 : 1), fr = chunk / 4 / ch; Map in = map_again ((size_t) n * ch * 4, chunk), out = map_again ((size_t) m * ch * 4, chunk); float *x = (float *) in.b, *y = (float *) out.b;
		for (size_t k = 0; k < fr; k++) for (int c = 0; c < ch; c++) x[k * ch + c] = sig (c, k);
		trace_len = 0; tr ("input_frames=%.0f, output_frames=%.0f, src_ratio=%.17g, %.0f channels", n, m, r, ch); long used = 0, gen = 0; int e = 0;
		static const float *gx; static long gn; gx = x; gn = n;
		if (how < 2) { SRC_DATA d; memset (&d, 0, sizeof d); d.data_in = x; d.data_out = y; d.input_frames = n; d.output_frames = m; d.src_ratio = r; InCall g; if (how == 1) e = src_simple (&d, conv, ch); else { SRC_STATE *s = src_new (conv, ch, &e); e = src_process (s, &d); src_delete (s); } used = d.input_frames_used; gen = d.output_frames_gen; }
		else { InCall g; SRC_STATE *s = src_callback_new ([] (void *, float **d) -> long { long n = gn; gn = 0; *d = (float *) gx; return n; }, conv, ch, &e, NULL); gen = src_callback_read (s, r, m, y); e = src_error (s); src_delete (s); used = -1; }
		cnt.trans++; cnt.states++; cnt.evals++;
		if (e) fail ("the call returned error %d (%s)", e, src_strerror (e));
		long full = (long) floor (n * r), want = std::min (m, full); if (labs (gen - want) > 1 + (how == 2 ? 1 : 0)) fail ("%ld frames were produced, expected %ld", gen, want);
		if (used >= 0) { long wu = gen < m ? n : (long) floor (gen / r); if (labs (used - std::min (wu, n)) > 1 + 1 / r) fail ("%ld frames were used, expected %ld", used, wu); }
		// the last frames written at each place of the block
		for (long k = std::max (0l, gen - (long) fr + 64); k < gen; k++)
		{	long double p = (long double) k / r; long b = (long) floorl (p); double f = (double) (p - b);
			for (int c = 0; c < ch; c++) { auto X = [&] (long j) { return (double) x[(j % (long) fr) * ch + c]; }; double w = conv == LIN ? lin_at (b, f, X) : X (b - 1 < 0 ? 0 : b - 1); float v = y[(size_t) k * ch + c]; cnt.evals++;
				if (conv == ZOH && near_int (f, 1e-5)) { if (v == (float) X (std::max (0l, b - 2)) || v == (float) X (b)) continue; }
				if (!(fabs (v - w) <= 1e-5)) fail ("output frame %ld channel %d is %.9g, it should be %.9g", k, c, v, w); }
		}
		cnt.nontriv++; cnt.traces++; munmap (in.b, in.tot); munmap (out.b, out.tot); sample_trace ("huge call"); hang_ticks = 25;
	});
}
static void huge_sinc (int conv, int ch, double r, long n, long m, int how)
{	add (str ("huge input %d %s ch=%d ratio=%g, %ld frames offered, room for %ld", how, conv_name (conv), ch, r, n, m), [=] () {
		hang_ticks = 600; size_t chunk = (size_t) 4096 * ch * 512, fr = chunk / 4 / ch; Map in = map_again ((size_t) n * ch * 4, chunk); float *x = (float *) in.b;
		for (size_t k = 0; k < fr; k++) for (int c = 0; c < ch; c++) x[k * ch + c] = sig (c, k);
		long M = m > 100000000 ? (long) (std::min (n, 20000l) * r) + 100 : m; Map om = { NULL, 0, 0 }; std::vector<float> buf; float *y; if (m > 100000000) { om = map_again ((size_t) m * ch * 4, (size_t) 4096 * ch * 4096); y = (float *) om.b; } else { buf.resize (m * ch + 1); y = buf.data (); }
		trace_len = 0; tr ("input_frames=%.0f, output_frames=%.0f, src_ratio=%.17g, %.0f channels", n, m, r, ch); int e = 0; long used = 0, gen = 0; SRC_STATE *s = NULL; (void) M;
		static const float *gx; static long gn; gx = x; gn = n;
		if (how == 2) { InCall g; s = src_callback_new ([] (void *, float **d) -> long { long n = gn; gn = 0; *d = (float *) gx; return n; }, conv, ch, &e, NULL); gen = src_callback_read (s, r, m, y); e = src_error (s); }
		else if (how == 1) { SRC_DATA d; memset (&d, 0, sizeof d); d.data_in = x; d.data_out = y; d.input_frames = n; d.output_frames = m; d.src_ratio = r; InCall g; e = src_simple (&d, conv, ch); used = d.input_frames_used; gen = d.output_frames_gen; }
		else { s = make (conv, ch); R q = process (s, x, n, y, m, r, 0); e = q.err; used = q.used; gen = q.gen; }
		cnt.trans++; cnt.states++; if (e) fail ("the call returned error %d (%s)", e, src_strerror (e));
		long want = std::min (m, (long) (n * r)); if (gen > want + 1 || gen < want - (how == 0 ? half_span (conv, r) * r * 2 + 4 : 2)) fail ("%ld frames were produced, expected %ld", gen, want);
		if (how < 2 && (used < (long) ((gen - 1) / r) || used > n)) fail ("%ld frames used for %ld produced", used, gen);
		auto check = [&] (long k, const float *v) { long double p = (long double) k / r; long b = (long) floorl (p); double f = (double) (p - b); for (int c = 0; c < ch; c++) { double t; double w = sinc_at (conv, r, b, f, [&] (long j) { return j < 0 || j >= n ? 0.0 : (double) x[(j % (long) fr) * ch + c]; }, &t); cnt.evals++; if (!(fabs (v[c] - w) <= 2 * t + 2e-6)) fail ("output frame %ld channel %d is %.9g, it should be %.9g", k, c, v[c], w); } };
		for (long k = 0; k < gen; k += gen > 40000 && k > 2000 && k < gen - 2000 ? 97 : 1) check (k, y + (size_t) k * ch);
		// and the stream goes on from there
		if (how == 0) for (int j = 0; j < 3; j++)
		{	std::vector<float> o2 (500 * ch); long n2 = std::min (n - used, j == 1 ? 2000l : n - used); tr ("next call: input_frames=%.0f", n2); R q = process_ok (s, x + (used % (long) fr) * ch, n2, o2.data (), 500, r, 0); for (long k = 0; k < q.gen; k++) check (gen + k, &o2[k * ch]); gen += q.gen; used += q.used; cnt.trans++; }
		if (s) src_delete (s);
		arena_check (); cnt.nontriv++; cnt.traces++; munmap (in.b, in.tot); if (om.b) munmap (om.b, om.tot); sample_trace ("huge call"); hang_ticks = 25;
	});
}
void setup_tasks ()
{	property_id = "C21"; bool T = thorough ();
	rule = "A case is one round of a fixed pattern of calls on an endless periodic signal; non-trivial when the complete state repeated with progress in between.";
	explanation = "The complete state (converter memory, statics, position in the signal) after each round is recorded; when it repeats, the run is a lasso and everything checked on it holds for ever: every output frame compared with the model or the same phase of the period, frames produced to frames consumed exactly in the ratio, memory constant. Ratios whose inverse is not exact in binary are followed for a long bounded time. Calls with more than 2^31 frames or samples run on repeated mappings of one block of memory.";
	assumptions = { "the library is deterministic (C16), so that a repeated state repeats its future" };
	extra_names = { { "closed_cycles", 0 }, { "bounded_only", 1 } };
	long B = 1l << 31;
	for (int conv : { LIN, ZOH })
	{	huge_zl (conv, 1, 1.0, B + 1000, B + 1000, 0); huge_zl (conv, 2, 0.5, B / 2 + 77777, B, 0); huge_zl (conv, 3, 1.5, B / 3 + 5, B, 1); huge_zl (conv, 1, 256.0, B / 256 + 100, B + 100000, 0); huge_zl (conv, 1, 1.0 / 256, B + 123456, 10000000, 1);
		huge_zl (conv, 1, 0.75, B + 5000, B, 2); huge_zl (conv, 1000, 1.0, B / 1000 + 1000, B / 1000 + 1000, 0); huge_zl (conv, 1, 0.9, 3 * B, B + 99, 0); huge_zl (conv, 1, 2.0, 5000, 2 * B + 5, 0); huge_zl (conv, 4, 1.0, B / 4 + 10, 50000, 0); }
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 8 })
	{	huge_sinc (conv, ch, 1.0, B / ch + 5000, 30000, 0); huge_sinc (conv, ch, 0.7, 2 * B / ch + 77, 20000, 0); huge_sinc (conv, ch, 1.3, 7000, B / ch + 1000, 1); if (ch < 4) { huge_sinc (conv, ch, 1.0, B / ch + 1, 20000, 1); huge_sinc (conv, ch, 1.0, B / ch + 1, 20000, 2); huge_sinc (conv, ch, 3.0, 2 * B / ch, 20000, 2); huge_sinc (conv, ch, 1.1, 3000, B, 2); huge_sinc (conv, ch, 1 / 250.0, B / ch + 300, 300, 0); } }
	huge_sinc (FAST, 128, 0.9, B / 128 + 10, 3000, 0); huge_sinc (FAST, 17, 0.9, B / 17 + 10, 3000, 0);
	std::vector<Frac> ex = { { 1, 1 }, { 2, 1 }, { 1, 2 }, { 1, 3 }, { 2, 3 }, { 4, 5 }, { 8, 5 }, { 4, 1 }, { 1, 4 }, { 4, 7 }, { 16, 15 }, { 16, 17 }, { 256, 1 }, { 1, 256 }, { 1, 7 }, { 32, 3 }, { 1, 5 }, { 128, 127 }, { 64, 49 } }, ne = { { 3, 2 }, { 147, 160 }, { 160, 147 }, { 3, 7 }, { 7, 3 }, { 10, 1 }, { 1, 10 }, { 999, 1000 }, { 1000, 999 }, { 255, 1 }, { 1, 255 }, { 5, 3 } };
	// these close at once unless the converter counts something
	for (int conv : { LIN, ZOH, FAST, MED }) for (bool cb : { false, true }) for (int ch : { 1, 3 })
	{	bool sc = is_sinc (conv); if (sc && ch > 1) continue; lasso (conv, ch, { 1, 1 }, { { sc ? 512 : cb ? 10000 : 8192, sc ? 512 : 8192 } }, sc ? 7 : 24, cb, sc ? conv == FAST ? 300000000l : 140000000l : ch > 1 ? (B + 1000000) / 3 : B + 1000000, true);
		lasso (conv, ch, { 1, 1 }, { { 1, 1 } }, sc ? 7 : 24, cb, sc ? 18000000l : 140000000l, true); }
	for (int pass = 0; pass < 2; pass++) for (auto &f : pass ? ne : ex) for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6 })
	{	if (ch > 2 && conv == MED && !T) continue; if (pass && ch > 3 && !T) continue;
		double r = (double) f.p / f.q; bool sc = is_sinc (conv); auto cap = [&] (long n) { return (long) (n * r) + 2; };
		double cost = sc ? filter_of (conv).len / filter_of (conv).inc * 2 / std::min (1.0, r) * ch : ch * 4;	// work per output frame
		long lim = (long) ((T ? 3e10 : 3e8) / (cost + 40)); if (pass) lim = std::min (lim, (long) (T ? 20000000 : 500000)); if (pass && r < 0.05) lim /= 3;
		std::vector<std::vector<Call>> pats = { { { 64, cap (64) } }, { { 1, cap (1) } }, { { 100, cap (40) }, { 7, 0 }, { 0, cap (100) }, { 33, 1 } }, { { 1000, 13 } }, { { 3, cap (3) }, { 200, cap (210) } }, { { 4096, cap (4096) } }, { { 5, 1000 } } };
		for (size_t k = 0; k < pats.size (); k++)
		{	if (!T && pass && k > 2 && k != 5) continue; if (!T && (ch > 3 || conv == MED) && k != 0 && k != 2 && k != 4) continue;
			lasso (conv, ch, f, pats[k], k % 2 ? 8 : 24, false, lim);
		}
		if (ch <= 3 || T) { lasso (conv, ch, f, { { 64, 50 } }, 16, true, lim); lasso (conv, ch, f, { { 1, 7 }, { 300, 1 }, { 5, 400 } }, 12, true, lim); }
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3 }) { varying (conv, ch, { 1.0, 1.1, 0.9 }, T ? 3000000 / (is_sinc (conv) ? 10 : 1) : is_sinc (conv) ? 20000 : 300000); varying (conv, ch, { 1.0, 2.0, 0.5, 0.25, 3.7 }, T ? 2000000 / (is_sinc (conv) ? 10 : 1) : is_sinc (conv) ? 12000 : 200000); }
}
