// C07: sinc converters apply their windowed-sinc filter to the whole stream.
#include "stream.hpp"
using namespace mc;

static std::vector<float> reference (int conv, int ch, double r, const float *x, long N, long frames, std::vector<float> &tolv)
{	std::vector<float> v (frames * ch); tolv.assign (frames * ch, 0);
	for (long k = 0; k < frames; k++)
	{	long double p = (long double) k / (long double) r; long b = (long) floorl (p); double f = (double) (p - b);
		for (int c = 0; c < ch; c++) { double t; v[k * ch + c] = (float) sinc_at (conv, r, b, f, [&] (long i) { return i < 0 || i >= N ? 0.0 : (double) x[i * ch + c]; }, &t); tolv[k * ch + c] = (float) t; }
	}
	return v;
}
// Number of frames: positions p with p + 1/r below N (mono); one more may come.
static long frames_of (double r, long N) { return (long) floor (N * r + 1e-9); }

// Single samples of value 1, further apart than the filter is long, so that every output sample shows one tap alone.
static std::vector<float> impulses (int conv, int ch, double r, long N)
{	std::vector<float> x (N * ch + 1, 0.0f); long S = 2 * (long) half_span (conv, r) + 3;
	for (int c = 0; c < ch; c++) for (long i = (c * 7 + 1) % S; i < N; i += S) x[i * ch + c] = c & 1 ? -1.0f : 1.0f;
	return x;
}
static bool imp = false;
static void explore (int conv, int ch, double r, long P, long pblock, long N, std::vector<long> in, std::vector<long> out, int dev)
{	bool im = imp;
	add (str ("%s ch=%d ratio=%.9g N=%ld prefix=%ld/%ld%s", conv_name (conv), ch, r, N, P, pblock, im ? " impulses" : ""), [=] () {
		std::vector<float> x = im ? impulses (conv, ch, r, N) : make_signal (ch, N), tolv;
		std::vector<float> ref = reference (conv, ch, r, x.data (), N, frames_of (r, N) + 2, tolv);
		StreamExplorer e; e.c.conv = conv; e.c.ch = ch; e.c.ratio = r; e.c.N = N; e.c.in_menu = in; e.c.out_menu = out; e.c.x = x.data (); e.c.ref = &ref;
		e.c.count_slack = 4; e.c.tolv = &tolv; e.c.dev = dev;
		SRC_STATE *s = make (conv, ch);
		long i = 0, o = 0, cap = (long) (pblock * r) + 8;
		e.out.assign ((cap + 1) * ch, 0);
		for (int g = 0; i < P && g < 1000000; g++)
		{	R q = process_ok (s, x.data () + i * ch, std::min (pblock, P - i), e.out.data (), cap, r, 0);
			e.check_out (o, q.gen); cnt.trans++; cnt.states++; cnt.nontriv++; i += q.used; o += q.gen;
			if (!q.used && !q.gen) break;
		}
		e.run (s, i, o);
	});
}
// Every ratio of the sweep, and every block size and capacity, each in one fixed pattern of calls.
static void fixed_pattern (int conv, int ch, double r, const std::vector<float> &x, long N, const std::vector<float> &ref, const std::vector<float> &tolv, long blk, long cap, bool late, std::vector<float> &o)
{	arena_reset (); statics_restore (); trace_len = 0; SRC_STATE *s = make (conv, ch); long have = ref.size () / ch;
	long got = convert_cut (s, ch, r, x.data (), N, blk, cap, late, o, [&] (long at, long g, const float *d) {
		cnt.evals += g * ch;
		for (long k = 0; k < g && at + k < have; k++) for (int c = 0; c < ch; c++) { long j = (at + k) * ch + c; if (!(fabs (d[k * ch + c] - ref[j]) <= tolv[j]))
			fail ("output frame %ld channel %d is %.9g, the filter gives %.9g (%s, %d channels, ratio %.17g, %ld frames, blocks of %ld, room for %ld)", at + k, c, d[k * ch + c], ref[j], conv_name (conv), ch, r, N, blk, cap); }
	});
	if (got < have - 4) fail ("%ld output frames, expected %ld (%s, %d channels, ratio %.17g, %ld frames)", got, have - 2, conv_name (conv), ch, r, N);
}
static void every_ratio (int conv, int ch, std::vector<double> rs)
{	add (str ("%s ch=%d %zu ratios %.4g..", conv_name (conv), ch, rs.size (), rs[0]), [=] () {
		std::vector<float> o, tolv;
		for (double r : rs) for (int im = 0; im < 2; im++)
		{	double span = half_span (conv, r); long N = (long) ((r < 0.05 ? 2.05 : 2.6) * span) + 8; if (r > 3) N = (long) span + 8 + (long) (200 / r);
			std::vector<float> x = im ? impulses (conv, ch, r, N) : make_signal (ch, N), ref = reference (conv, ch, r, x.data (), N, frames_of (r, N) + 2, tolv);
			long b = N / 5 + 1; fixed_pattern (conv, ch, r, x, N, ref, tolv, b, std::max (1l, (long) (b * r)), im, o); if (r > 0.05 && !im) fixed_pattern (conv, ch, r, x, N, ref, tolv, N, (long) (N * r) + 50, false, o); }
	});
}
static void every_size (int conv, int ch, double r, long N, std::vector<long> sizes)
{	add (str ("%s ch=%d ratio=%.9g every block size and capacity up to %ld", conv_name (conv), ch, r, sizes.back ()), [=] () {
		std::vector<float> o, tolv, x = make_signal (ch, N), ref = reference (conv, ch, r, x.data (), N, frames_of (r, N) + 2, tolv);
		for (long b : sizes) { fixed_pattern (conv, ch, r, x, N, ref, tolv, b, std::max (1l, (long) (b * r)), b & 1, o); fixed_pattern (conv, ch, r, x, N, ref, tolv, N, b, false, o); fixed_pattern (conv, ch, r, x, N, ref, tolv, b, 2 * N + 9, b & 2, o); }
	});
}
// Signals of every kind of values.  Frames whose filter touches a non-finite sample must not be finite; those it cannot touch
// must be what the filter gives.
static void values (int conv, int ch, std::vector<double> rs)
{	add (str ("%s ch=%d particular values, %zu ratios %.4g..", conv_name (conv), ch, rs.size (), rs[0]), [=] () {
		std::vector<float> o;
		for (double r : rs) for (int kind = 0; kind < VALUE_KINDS - 1; kind++)
		{	double span = half_span (conv, r); long N = (long) (2.6 * span) + 30; if (r > 3) N = (long) (1.2 * span) + 8 + (long) (100 / r);
			std::vector<float> x = odd_signal (kind, ch, N), fin = x, tolv; std::vector<std::vector<long>> bad (ch);
			if (kind >= FINITE_KINDS) { x = odd_signal (1, ch, N); for (int c = 0; c < ch; c++) for (long i = (long) span / 3 + c; i < N; i += (long) (2.3 * span)) { x[i * ch + c] = kind == 19 ? NAN : i & 1 ? INFINITY : -INFINITY; bad[c].push_back (i); } fin = x; for (int c = 0; c < ch; c++) for (long i : bad[c]) fin[i * ch + c] = 0; }
			std::vector<float> ref = reference (conv, ch, r, fin.data (), N, frames_of (r, N) + 2, tolv); long have = ref.size () / ch;
			for (int pat = 0; pat < 2; pat++)
			{	long blk = pat ? N / 6 + 1 : N, cap = pat ? std::max (1l, (long) (blk * r)) : (long) (N * r) + 50;
				arena_reset (); statics_restore (); trace_len = 0; tr ("(signal of kind %.0f, %.0f frames)", kind, N); SRC_STATE *s = make (conv, ch);
				convert_cut (s, ch, r, x.data (), N, blk, cap, pat, o, [&] (long at, long g, const float *d) {
					cnt.evals += g * ch;
					for (long k = 0; k < g && at + k < have; k++) for (int c = 0; c < ch; c++)
					{	long j = (at + k) * ch + c; float v = d[k * ch + c]; double p = (at + k) / r, near = 1e30; for (long i : bad[c]) near = std::min (near, fabs (p - i));
						if (near < span - 2 - 2 / r) { if (std::isfinite (v)) fail ("output frame %ld channel %d is %.9g although its filter covers a non-finite sample", at + k, c, v); continue; }
						if (near < span + 1 + 1 / r) continue;
						if (!(fabs (v - ref[j]) <= tolv[j])) fail ("output frame %ld channel %d is %.9g, the filter gives %.9g (%s, %d channels, ratio %.17g, %ld frames, blocks of %ld, room for %ld, values of kind %d)", at + k, c, v, ref[j], conv_name (conv), ch, r, N, blk, cap, kind);
					}
				});
			}
		}
	});
}
void setup_tasks ()
{	property_id = "C07"; bool T = thorough (); const int D = 2, ALL = 1000;
	rule = "A case is one src_process call in one reachable state of one configuration; every output sample is compared with the published filter applied to the whole input at the exact position; non-trivial when frames moved.";
	explanation = "Explicit-state search over call sequences on the real converters; oracle: direct evaluation of the windowed-sinc filter from a reference copy of its table, zero outside the stream, at position k/ratio.";
	assumptions = { "the reference copy of the coefficient tables in golden/coeffs.h is the published filter", "agreement is required to within one unit of the 12-bit filter index and single precision rounding" };
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 })
	{	int parts = conv == MED ? 16 : 8, take = T || (conv == FAST && ch <= 4) || ch == 6 ? parts : conv == MED && ch <= 2 ? 8 : 3;
		for (int k = 0; k < take; k++) every_ratio (conv, ch, some_ratios (parts, k * 5 + ch));
		for (double r : { 1.0, 0.91875, 1.7 }) if (T || ch < 3 || r == 0.91875) { every_size (conv, ch, r, 1500, sweep_sizes (1500, T ? 600 : 200)); if (T || conv == FAST) every_size (conv, ch, r, 70000, sweep_sizes (70000, 0)); }
	}
	for (int conv : { FAST, MED }) for (int ch = 1; ch <= 8; ch++) { std::vector<double> all = { 1.0, 0.91875, 1.0884353741496597, 2.0, 0.5, 0.3, 1.6, 5.0, 0.12, 0.77, 1.25, 40.0 }; for (size_t k = 0; k < all.size (); k++) if (T || conv == FAST ? ch <= 6 || k < 4 : (k + ch) % (ch <= 2 ? 2 : 6) == 0) values (conv, ch, { all[k] }); }
	for (int pass = 0; pass < 2; pass++) {
	imp = pass;
	std::vector<double> ratios = { 1.0, 2.0, 0.5, 1.5, 0.75, 3.0, 1.0 / 3, 44100.0 / 48000, 48000.0 / 44100, 0.1, 10.0, 0.987654321, 1.0123, 0.25, 4.0, 7.3, 1 / 7.3, 1.0001, 0.9999, 1.25, 0.8, 31.7, 0.031 };
	for (double r : ratios) for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 })
	{	if (r < 0.05 && ch > 2) continue;
		double span = half_span (conv, r); long N = r > 9 ? (long) span + 20 : (long) (2.6 * span) + 8, k = std::max (1l, N / 8), ko = std::max (1l, (long) (k * r));
		explore (conv, ch, r, 0, 1, N, { k, 0, 1, 3 * k + 1, 100000 }, { ko, 1, 100000 }, ch <= 2 && r > 0.2 ? D + (conv == FAST ? 1 : 0) : D);
	}
	for (double r : { 1.0, 0.77, 1.3 }) for (int ch : { 1, 2, 3, 4, 5, 6, 7 }) for (long N : { 0, 1, 2, 3, 5, 9 })
		explore (FAST, ch, r, 0, 1, N, { 1, 0, 2, 100 }, { 1, 0, 2, 1000 }, ALL);
	for (int conv : { FAST, MED }) for (int ch : { 1, 2 }) for (double r : { 256.0, 100.0 }) explore (conv, ch, r, 0, 1, 55, { 7, 0, 100 }, { (long) (7 * r), 1, 100000 }, 1);
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (double r : { 1.0 / 256, 1 / 255.5, 0.01 })
	{	
		long N = (long) (2.3 * half_span (conv, r)); explore (conv, ch, r, 0, 1, N, { N / 7, 1000000 }, { (long) (N / 7 * r) + 1, 1000000 }, 2); }
	for (int ch : { 16, 17, 64, 128 }) explore (FAST, ch, 0.9, 0, 1, 60, { 9, 100 }, { 9, 1, 100 }, 1);
	// long streams in various block sizes, several wraps of the buffer; ends within a filter length of the wrap
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 }) for (double r : { 1.0, 0.6, 1.7, 1 / 2.2 })
	{	if (conv == MED && !T && (ch > 2 || r != 0.6)) continue;
		if (!T && ch > 2 && r != 0.6) continue;
		long H = lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1), span = (long) half_span (conv, r);
		for (long blk : { 1l, 64l, 1000l, 5 * H })
		{	if (blk == 1 && (ch > 2 || conv == MED) && !T) continue;
			for (long d : { -1, 0, 1 }) explore (conv, ch, r, 7 * H + d * span - span, blk, 7 * H + d * span + span, { span / 3 + 1, 0, 1, 100000 }, { (long) (span / 3 * r) + 1, 1, 100000 }, d == 0 || T ? D : 0);
		}
	}
	}
}
