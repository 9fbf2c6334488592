// C08: a finished conversion is complete: all input consumed, N * ratio frames to within one, tail flushed, then nothing.
#include "stream.hpp"
using namespace mc;
// Call patterns: how the stream is handed over and drained.
struct Pat { const char *name; long blk, cap; int late; };	// late: 0 end_of_input with the last data, 1 afterwards with a pointer, 2 afterwards with NULL
static void convert (int conv, int ch, double r, long N, const Pat &p, const float *x, const Image &fresh, SRC_STATE *s, std::vector<float> &o)
{	fresh.restore (); trace_len = 1;
	long i = 0, total = 0, idle = 0; bool ended = false, done = false; double lastpeak = 0; (void) lastpeak;
	long cap = std::max (1l, std::min (p.cap, (long) (N * r) + 600)), guard = 0, limit = 40 + 4 * (N / std::max (1l, p.blk) + (long) (N * r) / cap) + 8;
	if ((long) o.size () < cap * ch) o.resize (cap * ch);
	while (true)
	{	long n = std::min (p.blk, N - i); bool last = i + n == N; int eof = p.late ? ended : last;
		R q = process_ok (s, p.late == 2 && ended ? NULL : x + i * ch, n, o.data (), cap, r, eof); cnt.trans++; cnt.states++;
		if (q.gen || q.used) cnt.nontriv++;
		if (done && q.gen) fail ("%s: a call with end_of_input gave nothing though all input was consumed, yet a later call gives %ld frames more (%s, %d channels, ratio %.17g, %ld frames)", p.name, q.gen, conv_name (conv), ch, r, N);
		i += q.used; total += q.gen; if (eof && i == N && q.gen == 0) done = true;
		for (long k = 0; k < q.gen * ch; k++) if (!(fabs (o[k]) < 8)) fail ("output sample is %g for input within [-1, 1]", o[k]);
		if (i == N && !ended && p.late && q.gen < cap) { ended = true; idle = 0; if (!eof) continue; }
		if (!q.used && !q.gen) { if (++idle > 2) break; } else idle = 0;
		if (++guard > limit + 3 * (long) (N * r) / cap) fail ("the conversion of %ld frames has not finished after %ld calls", N, guard);
	}
	cnt.evals++; cnt.traces++;
	if (i != N) fail ("%s: only %ld of %ld input frames were consumed (%s, %d channels, ratio %.17g)", p.name, i, N, conv_name (conv), ch, r);
	double e = N * r; long lo, hi;
	if (conv == LIN) { lo = (long) ceil (e - 1e-7); hi = (long) ceil (e + 1e-7); if (N == 0) lo = hi = 0; }
	else if (conv == ZOH) { lo = (long) floor (e - 1e-7) + 1; hi = (long) floor (e + 1e-7) + 1; if (lo > hi - 1 && fabs (e - rint (e)) < 1e-7) lo = hi - 1; if (N == 0) { lo = hi = 0; } }
	else { lo = (long) ceil (e - 1 - 1e-7); hi = (long) floor (e + 1 + 1e-7); if (lo < 0) lo = 0; if (N == 0) hi = 1; }
	if (total < lo || total > hi) fail ("%s: %ld input frames at ratio %.17g gave %ld output frames, expected %ld to %ld (%s, %d channels)", p.name, N, r, total, lo, hi, conv_name (conv), ch);
	if (N == 37) sample_trace ("complete conversion");
}
static void lengths (int conv, int ch, double r, std::vector<long> Ns, std::vector<Pat> pats)
{	add (str ("%s ch=%d ratio=%.9g lengths %ld..%ld", conv_name (conv), ch, r, Ns[0], Ns.back ()), [=] () {
		std::vector<float> x = make_signal (ch, Ns.back () + 1), o;
		SRC_STATE *s = make (conv, ch); Image fresh; fresh.save ();
		for (long N : Ns) for (auto &p : pats) convert (conv, ch, r, N, p, x.data (), fresh, s, o);
	});
}
// The tail: the stream's last frames must be there, in full.  Values against the filter / interpolation.
static void tail (int conv, int ch, double r, long N, std::vector<Pat> pats)
{	add (str ("%s ch=%d ratio=%.9g tail of a stream of %ld frames", conv_name (conv), ch, r, N), [=] () {
		std::vector<float> x = make_signal (ch, N); long frames = (long) (N * r + 1e-9);
		for (auto &p : pats)
		{	arena_reset (); statics_restore (); trace_len = 0;
			SRC_STATE *s = make (conv, ch); std::vector<float> all, o ((p.cap + 1) * ch); long i = 0; bool ended = false, done = false; int idle = 0;
			for (long g = 0; g < 100000 && idle < 3; g++)
			{	long n = std::min (p.blk, N - i); int eof = p.late ? ended : i + n == N;
				R q = process_ok (s, p.late == 2 && ended ? NULL : x.data () + i * ch, n, o.data (), p.cap, r, eof); cnt.trans++; cnt.states++; if (q.gen || q.used) cnt.nontriv++;
				if (done && q.gen) fail ("%s: a call with end_of_input gave nothing though all input was consumed, yet a later call gives %ld frames more", p.name, q.gen);
				if (eof && i + q.used == N && q.gen == 0) done = true;
				all.insert (all.end (), o.begin (), o.begin () + q.gen * ch); i += q.used;
				if (i == N && !ended && p.late && q.gen < p.cap) { ended = true; idle = 0; } else idle = q.used || q.gen ? 0 : idle + 1;
			}
			cnt.traces++;
			long got = all.size () / ch;
			if (got < frames - 1) fail ("%s: %ld output frames, the stream has %ld", p.name, got, frames);
			for (long k = std::max (0l, frames - (long) (2 * (is_sinc (conv) ? half_span (conv, r) : 2) * r) - 5); k < std::min (got, frames); k++)
			{	long double pp = (long double) k / r; long b = (long) floorl (pp); double f = (double) (pp - b);
				for (int c = 0; c < ch; c++)
				{	double t = 3e-6, w, gv = all[k * ch + c]; auto at = [&] (long j) { return j < 0 || j >= N ? 0.0 : (double) x[j * ch + c]; };
					if (is_sinc (conv)) { w = sinc_at (conv, r, b, f, at, &t); t = 3 * t + 1e-6; }
					else if (conv == LIN) w = lin_at (b, f, at);
					else { w = at (b - 1 < 0 ? 0 : b - 1); if (f < 1e-9 || f > 1 - 1e-9) { long q = f < 0.5 ? b - 2 : b; if (gv == at (q < 0 ? 0 : q)) w = gv; } }
					cnt.evals++;
					if (!(fabs (gv - w) <= t)) fail ("%s: frame %ld of %ld near the end of the stream is %.9g, expected %.9g (channel %d)", p.name, k, frames, gv, w, c);
				}
			}
		}
	});
}
void setup_tasks ()
{	property_id = "C08"; bool T = thorough ();
	rule = "A case is one complete conversion (length, ratio, channels, converter, call pattern) run to the end and two calls beyond; non-trivial calls moved frames.";
	explanation = "Exhaustive enumeration of stream lengths from 0 up and of call patterns, on the real converters, starting each from the saved image of a fresh converter; oracle: exact length formula, all input consumed, silence afterwards, tail samples against the reference filter.";
	std::vector<double> rs = { 1.0, 2.0, 0.5, 1.5, 0.75, 3.0, 1.0 / 3, 44100.0 / 48000, 48000.0 / 44100, 0.1, 10.0, 0.987654321, 1.0123, 0.25, 4.0, 7.3, 1 / 7.3, 0.0990, 0.1001, 0.9999, 1.0001, 1.1, 0.83, 1.2001, 0.3, 1.7, 2.0 / 3, 0.2 };
	std::vector<Pat> pats = { {"one call, room for everything", LONG_MAX / 2, LONG_MAX / 2, 0}, {"blocks of 1", 1, 5, 0}, {"late end_of_input", 13, 1000, 1}, {"late end_of_input, NULL", 64, 1000, 2}, {"room for 1 frame", LONG_MAX / 2, 1, 0}, {"blocks of 10, late NULL, room for 7", 10, 7, 2} };
	std::vector<Pat> big = { pats[0], {"late end_of_input", 1000, 100000, 1}, {"late end_of_input, NULL", 5000, 100000, 2}, {"room for 3 frames", LONG_MAX / 2, 3, 0} };
	for (double r : rs) for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 })
	{	if (ch > 3 && !T && conv == MED && r < 0.2) continue;
		std::vector<long> Ns; long top = is_sinc (conv) ? (ch > 2 ? 24 : conv == MED ? 50 : 90) : 130; top *= T ? 3 : 2;
		for (long n = 0; n <= top; n++) Ns.push_back (n);
		for (long n : { 127l, 128l, 200l, 255l, 256l, 333l, 500l, 1000l }) if (n > top && (ch <= 2 || T)) Ns.push_back (n);
		if (is_sinc (conv) && !T && ch > 1) { std::vector<long> h; for (size_t i = 0; i < Ns.size (); i++) if (i < 30 || i % 3 == 0) h.push_back (Ns[i]); Ns = h; }
		lengths (conv, ch, r, Ns, pats);
	}
	for (double r : sweep_ratios ()) for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 })
	{	if (conv == MED && !T && (ch > 1 || r < 0.05)) continue;
		if (conv == FAST && !T && ch > 2 && r < 0.05) continue;
		long t = (long) (3 / r) + 1; std::vector<long> Ns = { 0, 1, 2, 3, t, t + 1, 2 * t + 1, 100 }; if (is_sinc (conv)) { long h = (long) half_span (conv, r); Ns.push_back (h - 1); Ns.push_back (h); Ns.push_back (h + 1); Ns.push_back (2 * h + 3); }
		std::sort (Ns.begin (), Ns.end ()); lengths (conv, ch, r, Ns, { pats[0], r > 0.1 ? pats[1] : big[1], {"blocks of 20, late NULL, room for 9", 20, r > 20 ? 1000 : 9, 2} });
		if (ch < 4 && r > 0.02 && (conv != MED || r > 0.2)) tail (conv, ch, r, 2 * t + (is_sinc (conv) ? (long) half_span (conv, r) : 3), { {"one call", 1 << 20, 20000, 0}, {"late", 40, 100, 1} });
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (double r : { 1.0, 0.91875, 1.7, 1 / 3.0 })
	{	if (conv == MED && !T && ch > 1) continue;
		std::vector<long> Ns = { 0 }; for (long n : sweep_sizes (conv == FAST && ch > 2 && !T ? 12000 : 100000, T ? 1100 : 300)) Ns.push_back (n);
		lengths (conv, ch, r, Ns, { {"one call", LONG_MAX / 2, LONG_MAX / 2, 0}, {"blocks of 1024, room for 512, late NULL", 1024, 512, 2} });
	}
	for (int conv : { LIN, ZOH, FAST }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 128 }) for (double r : { 1.0 / 256, 1 / 255.5, 1 / 200.3, 0.01, 100.0, 256.0 })
	{	if (ch == 128 && r < 0.01) continue;
		std::vector<long> Ns; if (r < 1) { for (long n = 0; n < 6000; n += n < 3 ? 1 : conv == FAST ? 1013 : 255) Ns.push_back (n); Ns.push_back (20000); } else for (long n = 0; n < (ch > 8 ? 5 : 24); n++) Ns.push_back (n);
		lengths (conv, ch, r, Ns, big);
	}
	for (int ch : { 1, 2, 3 }) for (double r : { 1.0 / 256, 0.02, 256.0 }) { std::vector<long> Ns; if (r < 1) for (long n = 1; n < 40000; n += 13007) Ns.push_back (n); else for (long n = 0; n < 12; n++) Ns.push_back (n); lengths (MED, ch, r, Ns, { big[0], big[2] }); }
	for (int ch : { 9, 16, 17, 64, 127, 128 }) for (double r : { 1.0, 0.7, 1.9 }) for (int conv : { LIN, ZOH, FAST }) lengths (conv, ch, r, { 0, 1, 2, 3, 5, 20, 37, 100 }, { pats[0], pats[3], {"room for 3 frames", LONG_MAX / 2, 3, 0} });
	for (int conv : { FAST, MED, LIN, ZOH }) for (int ch : { 1, 2, 3, 4, 6, 7 }) for (double r : { 1.0, 0.5, 0.7, 1.6, 3.0, 0.11 }) for (long N : { 1, 7, 50, 300 }) tail (conv, ch, r, N, { {"one call", N, 2000, 0}, {"late", 20, 50, 1}, {"late NULL", 31, 9, 2}, {"blocks of 1", 1, 100, 0} });
	// ends of streams at every distance from the wrap of the sinc buffer
	for (int ch : { 1, 2, 3, 4, 6, 7 }) for (int conv : { FAST, MED }) for (double r : { 1.0, 0.3, 2.0 })
	{	if (conv == MED && (ch > 1 || r != 1.0) && !T) continue;
		long H = lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1), span = (long) half_span (conv, r); std::vector<long> Ns;
		for (long mult : { 3, 4, 7 }) { if (!T && ch > 2 && mult == 7) continue; long st = conv == MED || ch > 1 ? span / 3 : 7; if (T) st = 2; for (long d = -2 * span - 8; d < 2 * span + 12; d += std::max (1l, st)) Ns.push_back (mult * H + d); }
		std::sort (Ns.begin (), Ns.end ());
		lengths (conv, ch, r, Ns, { {"one call", LONG_MAX / 2, LONG_MAX / 2, 0}, {"blocks of 1000, late NULL", 1000, 5000, 2} });
		for (long mult : { 3, 4 }) for (long d = -span - 1; d <= span; d += span / 2 + 1) tail (conv, ch, r, mult * H + d, { {"one call", mult * H + d, 100000, 0}, {"late NULL", 1000, 5000, 2} });
	}
}
