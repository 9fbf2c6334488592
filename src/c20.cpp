// C20: converters are linear, time-invariant and forget.
#include "stream.hpp"
using namespace mc;
typedef std::vector<float> V;
struct Cut { long blk, cap; int late; };	// block size, output capacity, end_of_input in an extra call
// Converts x in calls of fixed sizes; returns all output.
static V convert (int conv, int ch, double r, const float *x, long N, Cut c, SRC_STATE *s0 = NULL)
{	SRC_STATE *s = s0 ? s0 : make (conv, ch, true); V all; static V buf; buf.resize (c.cap * ch + 1); long i = 0;
	for (long g = 0; ; g++)
	{	long n = std::min (c.blk, N - i); int eof = i + n == N && !(c.late && n > 0);
		R q = process_ok (s, x + i * ch, n, buf.data (), c.cap, r, eof, true); cnt.trans++; cnt.states++;
		i += q.used; all.insert (all.end (), buf.begin (), buf.begin () + q.gen * ch);
		if (i == N && n == 0 && q.gen == 0) break;
		if (!eof && !q.used && !q.gen && n > 0) fail ("no progress");
		if (eof && !q.gen && !q.used) break;
		if (g > 40 * N + 100000) fail ("the stream does not end");
	}
	if (!s0) { src_delete (s); arena_check (); }
	return all;
}
static std::vector<Cut> cuts (long N, double r) { std::vector<Cut> v; for (long b : { 1000000l, 1l, 2l, 3l, 7l, N / 2 + 1 }) for (long c : { (long) (N * r) + 60, 1l, 3l, (long) (b > 1000 ? 5 : b * r) + 1 }) { v.push_back ({ b, c, 0 }); if (b == 3 || b > 1000) v.push_back ({ b, c, 1 }); } return v; }
// Superposition: a signal is the sum of its frames taken alone.
static void superposition (int conv, int ch, double r, long N)
{	add (str ("superposition %s ch=%d ratio=%.9g N=%ld", conv_name (conv), ch, r, N), [=] () {
		V x = make_signal (ch, N);
		for (auto &c : cuts (N, r))
		{	trace_len = 0; tr ("streams of %.0f frames in calls of %.0f input frames and capacity %.0f (end_of_input late: %.0f), ratio %.17g", N, c.blk, c.cap, c.late, r);
			arena_reset (); V y = convert (conv, ch, r, x.data (), N, c); std::vector<double> sum (y.size (), 0.0), mag (y.size (), 0.0); cnt.nontriv += y.size () > 0;
			for (long d = 0; d < N; d++)
			{	V one ((size_t) N * ch + 1, 0.0f); memcpy (&one[d * ch], &x[d * ch], ch * 4); arena_reset (); V z = convert (conv, ch, r, one.data (), N, c);
				if (z.size () != y.size ()) fail ("the number of output frames depends on the sample values: %zu and %zu", z.size () / ch, y.size () / ch);
				for (size_t k = 0; k < z.size (); k++) { sum[k] += z[k]; mag[k] += fabs (z[k]); }
			}
			for (size_t k = 0; k < y.size (); k++) if (!(fabs (sum[k] - y[k]) <= 3e-6 + 3e-7 * mag[k])) fail ("output frame %zu channel %zu is %.9g, the sum of the responses to the single frames is %.9g", k / ch, k % ch, y[k], sum[k]);
			// scaling by powers of two is exact, as long as nothing underflows
			for (float a : { 0.5f, -1.0f, 1024.0f, -0.0009765625f, 1.8446744073709552e19f, 8.673617379884035e-19f, -7.888609052210118e-31f })
			{	V xs = x; for (auto &v : xs) v *= a; arena_reset (); V z = convert (conv, ch, r, xs.data (), N, c);
				for (size_t k = 0; k < y.size (); k++) if (!(fabs (z[k] - a * y[k]) <= fabs (a) * 1e-6)) fail ("scaling the input by %g: output frame %zu is %.9g instead of %.9g", a, k / ch, z[k], a * y[k]);
				cnt.evals += y.size ();
			}
			V zero (x.size (), 0.0f); arena_reset (); V z = convert (conv, ch, r, zero.data (), N, c); for (float v : z) if (v != 0) fail ("silence gives %g", v);
			cnt.evals += y.size () * 2; cnt.traces++;
			if (c.blk == 7) sample_trace ("superposition over all frames of a stream");
		}
	});
}
// Delaying the input by t*q frames of zeros delays the output by t*p frames (ratio p/q).
static void shift (int conv, int ch, long p, long q, long N, long tmax, long step)
{	add (str ("time invariance %s ch=%d ratio=%ld/%ld N=%ld delays up to %ld", conv_name (conv), ch, p, q, N, tmax * q), [=] () {
		double r = (double) p / q; V x = make_signal (ch, N); for (int c = 0; c < ch; c++) x[c] = 0;
		V y = convert (conv, ch, r, x.data (), N, { 1000000, (long) (N * r) + 200, 0 });
		double span = is_sinc (conv) ? half_span (conv, r) : 3; bool dy = is_dyadic (r);
		for (long t = 0; t <= tmax; t += t < 20 ? 1 : step) for (long blk : { 1000000l, t % 3 ? 61l : 1l })
		{	long D = t * q; V xs ((size_t) (N + D) * ch + 1, 0.0f); memcpy (&xs[D * ch], x.data (), N * ch * 4); arena_reset (); trace_len = 0;
			tr ("stream of %.0f frames delayed by %.0f frames, in calls of %.0f frames, ratio %.17g", N, D, blk, r);
			V z = convert (conv, ch, r, xs.data (), N + D, { blk, blk > 1000 ? (long) ((N + D) * r) + 200 : (long) (blk * r) + 2, 0 });
			long off = t * p, fy = y.size () / ch, fz = z.size () / ch;
			if (labs (fz - off - fy) > 1) fail ("%ld output frames, %ld without the delay of %ld frames", fz, fy, D);
			for (long k = 0; k < off && k < fz; k++)
			{	double pos = k / r; if (pos > D - span - 1) break;
				for (int c = 0; c < ch; c++) if (z[k * ch + c] != 0) fail ("output frame %ld is %g before the delayed signal begins", k, z[k * ch + c]); }
			for (long k = 0; k < fy && k + off < fz; k++)
			{	double pos = k / r; pos -= floor (pos);
				if (conv == ZOH && !dy && (pos < 1e-9 || pos > 1 - 1e-9)) continue;
				// a sinc response that reaches before the start of the stream sees zeros there, as in the delayed stream
				for (int c = 0; c < ch; c++) { double a = y[k * ch + c], b = z[(k + off) * ch + c]; if (!(fabs (a - b) <= (dy ? 2e-6 : is_sinc (conv) ? 2e-4 : 3e-6))) fail ("output frame %ld channel %d is %.9g; with the input delayed by %ld frames, frame %ld is %.9g", k, c, a, D, k + off, b); }
			}
			cnt.evals += fz * ch; cnt.traces++; cnt.nontriv++;
		}
		sample_trace ("one delay");
	});
}
// A disturbing frame leaves no trace outside the span of the filter.
static bool may_affect (int conv, double r, long d, double p)
{	const double e = 1e-6;
	if (is_sinc (conv)) return fabs (p - d) <= half_span (conv, r) + 1.0 / r + e;
	return p >= d - e && p <= d + 2 + e;
}
static void compare_local (int conv, int ch, double r, long d, int c, const V &y, const V &z, long first, const char *what)
{	if (y.size () != z.size ()) fail ("%s in frame %ld changes the number of output frames from %zu to %zu", what, d, y.size () / ch, z.size () / ch);
	for (size_t k = 0; k < y.size (); k++)
	{	long f = first + k / ch; if ((c < 0 || (int) (k % ch) == c) && may_affect (conv, r, d, f / r)) continue;
		if (memcmp (&y[k], &z[k], 4)) fail ("%s in input frame %ld, channel %d: output frame %ld channel %zu (position %.6f) changes from %.9g to %.9g", what, d, c, f, k % ch, f / r, y[k], z[k]);
	}
	cnt.evals += y.size ();
}
static void locality (int conv, int ch, double r, long N, std::vector<Cut> cs)
{	add (str ("locality %s ch=%d ratio=%.9g N=%ld", conv_name (conv), ch, r, N), [=] () {
		V x = make_signal (ch, N);
		for (auto &c : cs)
		{	arena_reset (); trace_len = 0; tr ("stream of %.0f frames in calls of %.0f input frames and capacity %.0f (end_of_input late: %.0f), ratio %.17g, with one disturbing sample", N, c.blk, c.cap, c.late, r);
			V y = convert (conv, ch, r, x.data (), N, c);
			for (long d = 0; d < N; d++) for (int k = 0; k < ch; k++) for (float v : { NAN, INFINITY, -3e38f })
			{	if (v < 0 && ch > 3) continue;
				V xs = x; xs[d * ch + k] = v; arena_reset (); V z = convert (conv, ch, r, xs.data (), N, c); compare_local (conv, ch, r, d, k, y, z, 0, v != v ? "NaN" : v > 0 ? "Infinity" : "a huge sample"); cnt.nontriv++; }
			cnt.traces++;
			if (c.blk == 3) sample_trace ("disturbances at every place");
		}
	});
}
// The same in long streams: from a checkpoint before the disturbance until the internal buffer has been refilled more than once.
static void long_locality (int conv, int ch, double r, long blk, long step, long phase, bool end)
{	add (str ("long locality %s ch=%d ratio=%.9g blocks of %ld, every %ld-th frame from %ld%s", conv_name (conv), ch, r, blk, step, phase, end ? ", then the end" : ""), [=] () {
		long lap = 4 * (lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256) + 2), N = 2 * lap + 100; V x = make_signal (ch, N), buf;
		struct CP { Image im; long i, o; }; std::vector<CP> cps; V ref; std::vector<long> obase;
		SRC_STATE *s = make (conv, ch); long i = 0, o = 0, cap = (long) (blk * r) + 2; buf.resize (cap * ch + 1);
		long stop_at = end ? N : N;
		auto step_ = [&] (const float *in) { long n = std::min (blk, stop_at - i); bool e = i + n == stop_at && end; R q = process_ok (s, in + i * ch, n, buf.data (), cap, r, e, true); cnt.trans++; i += q.used; long g = q.gen; return std::make_pair (g, q.used); };
		for (;;) { if (cps.empty () || i >= cps.back ().i + 400) { cps.emplace_back (); cps.back ().im.save (); cps.back ().i = i; cps.back ().o = o; } auto g = step_ (x.data ()); ref.insert (ref.end (), buf.begin (), buf.begin () + g.first * ch); o += g.first; cnt.states++; if (!g.first && !g.second) break; if (!end && i == N) break; }
		V xs = x;
		for (long d = end ? N - 700 + phase : phase; d < (end ? N : lap + 50); d += step)
		{	size_t k = cps.size () - 1; while (k > 0 && cps[k].i > d) k--;
			cps[k].im.restore (); i = cps[k].i; o = cps[k].o; int c = d % ch; float v = d & 1 ? NAN : INFINITY; xs[d * ch + c] = v; trace_len = 0;
			tr ("stream in calls of %.0f frames, ratio %.17g, disturbed sample in frame %.0f channel %.0f", blk, r, d, c);
			for (long i0 = i; i < (end ? N + 1 : std::min (N, i0 + lap + 400)); )
			{	auto g = step_ (xs.data ());
				for (long f = 0; f < g.first; f++) for (int q = 0; q < ch; q++)
				{	long ff = o + f; if (q == c && may_affect (conv, r, d, ff / r)) continue;
					if ((size_t) (ff * ch + q) >= ref.size () || memcmp (&ref[ff * ch + q], &buf[f * ch + q], 4)) fail ("a non-finite sample in input frame %ld, channel %d: output frame %ld channel %d (position %.6f) changes from %.9g to %.9g", d, c, ff, q, ff / r, ref[ff * ch + q], buf[f * ch + q]); }
				o += g.first; cnt.evals += g.first * ch; if (!g.first && !g.second) break;
			}
			xs[d * ch + c] = x[d * ch + c]; cnt.traces++; cnt.nontriv++; arena_check ();
		}
		sample_trace ("one disturbance");
	});
}
// Superposition of two halves, scaling, and a disturbance at a few places, for every ratio of the sweep.
static void every_ratio (int conv, int ch, std::vector<double> rs)
{	add (str ("%s ch=%d %zu ratios %.9g..", conv_name (conv), ch, rs.size (), rs[0]), [=] () {
		for (double r : rs)
		{	long N = is_sinc (conv) ? (long) (2.2 * half_span (conv, r)) + 20 : (long) (20 / std::min (r, 1.0)) + 2; if (r > 1) N = std::min (N, (long) (is_sinc (conv) ? half_span (conv, 1) : 3) + (long) (3000 / r));
			V x = make_signal (ch, N), a ((size_t) N * ch + 1, 0.0f), b = a; for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++) (i % 3 == 0 || c == 1 ? a : b)[i * ch + c] = x[i * ch + c];
			Cut cs[2] = { { N, (long) (N * r) + 60, 0 }, { N / 9 + 1, std::max (1l, (long) ((N / 9 + 1) * r)), 1 } };
			for (auto &c : cs)
			{	trace_len = 0; tr ("streams of %.0f frames in calls of %.0f input frames and capacity %.0f (end_of_input late: %.0f), ratio %.17g", N, c.blk, c.cap, c.late, r);
				auto conv_ = [&] (const V &v) { arena_reset (); return convert (conv, ch, r, v.data (), N, c); };
				V y = conv_ (x), ya = conv_ (a), yb = conv_ (b); cnt.nontriv += 3;
				if (ya.size () != y.size () || yb.size () != y.size ()) fail ("the number of output frames depends on the sample values: %zu, %zu and %zu", y.size () / ch, ya.size () / ch, yb.size () / ch);
				for (size_t k = 0; k < y.size (); k++) if (!(fabs ((double) ya[k] + yb[k] - y[k]) <= 4e-6)) fail ("output frame %zu channel %zu is %.9g, the two parts of the signal give %.9g and %.9g", k / ch, k % ch, y[k], ya[k], yb[k]);
				for (float f : { -1024.0f, 8.673617379884035e-19f }) { V xs = x; for (auto &v : xs) v *= f; V z = conv_ (xs); for (size_t k = 0; k < y.size (); k++) if (!(fabs (z[k] - f * y[k]) <= fabs (f) * 1e-6)) fail ("scaling the input by %g: output frame %zu is %.9g instead of %.9g", f, k / ch, z[k], f * y[k]); }
				for (long d : { 0l, 1l, N / 2, N - 1 }) { V xs = x; int q = d % ch; xs[d * ch + q] = d & 1 ? NAN : INFINITY; V z = conv_ (xs); compare_local (conv, ch, r, d, q, y, z, 0, "a non-finite sample"); }
				cnt.evals += y.size () * 4; cnt.traces++;
			}
		}
	});
}
void setup_tasks ()
{	property_id = "C20"; bool T = true;
	rule = "A case is one conversion of a stream with one disturbed, isolated or delayed frame, compared with the undisturbed conversion; non-trivial when output was produced.";
	explanation = "Enumeration of every position (and channel) of the disturbing frame over all enumerated cuttings on the real converters; oracle: the undisturbed conversion, bit by bit outside the filter span.";
	assumptions = { "for ratios whose inverse is not exact in binary, time invariance is required to within one unit of the filter index" };
	for (int conv : { LIN, ZOH }) for (int ch : { 1, 2, 3, 5 }) for (double r : { 1.0, 2.0, 0.5, 0.7, 1.3, 5.0, 0.2 }) { superposition (conv, ch, r, 17); locality (conv, ch, r, 19, cuts (19, r)); }
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7 }) for (double r : { 1.0, 0.7, 1.6, 0.31, 3.3 })
	{	if (!T && conv == MED && ch > 2) continue;
		long N = (long) (2.2 * half_span (conv, r)) + 11; if (!T && N > 200 && ch > 2) continue;
		superposition (conv, ch, r, std::min (N, T ? 200l : 70l));
		std::vector<Cut> cs = { { 1000000, (long) (N * r) + 60, 0 }, { 3, 5, 0 }, { N / 2 + 1, 9, 1 }, { 1, 1, 0 } }; if (!T && (ch > 2 || conv == MED || r < 0.5)) cs.resize (2);
		locality (conv, ch, r, N, cs);
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) { int parts = is_sinc (conv) ? 12 : 1; for (int k = 0; k < (conv == MED && ch > 1 && !thorough () ? 3 : conv == FAST && ch > 2 && !thorough () ? 6 : parts); k++) every_ratio (conv, ch, some_ratios (parts, 5 * k + ch)); }
	long pq[][2] = { { 1, 1 }, { 2, 1 }, { 1, 2 }, { 3, 2 }, { 2, 3 }, { 147, 160 }, { 160, 147 }, { 1, 4 }, { 4, 1 }, { 5, 7 }, { 7, 5 }, { 10, 1 }, { 1, 10 } };
	for (auto &f : pq) for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6 })
	{	if (conv == MED && ch > 2 && !T) continue;
		long N = is_sinc (conv) ? std::min (300l, (long) (1.2 * half_span (conv, (double) f[0] / f[1]))) : 40;
		long tmax = is_sinc (conv) ? std::max (20l, (conv == FAST ? 12000l : 24000l) / f[1] / (T ? 1 : 2)) : 200; if (f[0] > 9) tmax = std::min (tmax, 3000l / f[1] + 20);
		shift (conv, ch, f[0], f[1], N, tmax, std::max (1l, tmax / (T ? 200 : ch > 2 ? 10 : 40))); }
	struct { int conv, ch; double r; long blk, step; } ll[] = { { FAST, 1, 0.9, 97, 12 }, { FAST, 1, 1.0, 1000, 24 }, { FAST, 2, 0.6, 211, 48 }, { FAST, 3, 0.8, 5000, 96 }, { FAST, 4, 0.9, 64, 96 }, { FAST, 6, 0.9, 333, 144 }, { FAST, 1, 0.1, 800, 96 }, { MED, 1, 0.8, 500, 240 }, { MED, 2, 0.3, 3000, 480 } };
	for (auto &l : ll) { long st = thorough () ? 8 : std::max (1l, l.step / 12) * 8; for (long ph = 0; ph < 8; ph++) { long_locality (l.conv, l.ch, l.r, l.blk, st, ph * (st / 8) + ph % 3, false); } long_locality (l.conv, l.ch, l.r, l.blk, T ? 1 : 5, 0, true); }
}
