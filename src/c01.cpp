// C01: the result of a stream does not depend on how it is cut into calls.
// All cuttings of short streams, and all cuttings of a window of long streams placed around the wrap of the sinc buffer,
// are explored on the real code with state merging; every produced sample is compared with the one-call conversion.
#include "stream.hpp"
using namespace mc;

// ZOH needs no input beyond the frame before its position, so the frame at exactly N may come with the last data or not at all.
static long slack (int conv, double r, long N) { return ! is_dyadic (r) || (conv == ZOH && N * r == floor (N * r)) ? 1 : 0; }
static void short_stream (int conv, int ch, double r, long N, std::vector<long> in, std::vector<long> out, int dev)
{	add (str ("%s ch=%d ratio=%.9g N=%ld", conv_name (conv), ch, r, N), [=] () {
		std::vector<float> x = make_signal (ch, N);
		tr ("(reference: all %.0f frames in one call)", N);
		std::vector<float> ref = oneshot (conv, ch, r, x.data (), N);
		trace_len = 0; arena_reset (); statics_restore ();
		StreamExplorer e;
		e.c.conv = conv; e.c.ch = ch; e.c.ratio = r; e.c.N = N; e.c.in_menu = in; e.c.out_menu = out; e.c.x = x.data (); e.c.ref = &ref;
		e.c.count_slack = slack (conv, r, N); e.c.tol = is_sinc (conv) ? 2e-5 : 2e-6; e.c.dev = dev;
		e.run (make (conv, ch));
	});
}
// A prefix of P frames in one block, then all cuttings of the next W frames, for a stream that ends there.
static void window (int conv, int ch, double r, long P, long W, long pblock, std::vector<long> in, std::vector<long> out, int dev)
{	add (str ("%s ch=%d ratio=%.9g window after %ld frames in blocks of %ld", conv_name (conv), ch, r, P, pblock), [=] () {
		long N = P + W;
		std::vector<float> x = make_signal (ch, N);
		std::vector<float> ref = oneshot (conv, ch, r, x.data (), N);
		arena_reset (); statics_restore ();
		SRC_STATE *s = make (conv, ch);
		StreamExplorer e;
		e.c.conv = conv; e.c.ch = ch; e.c.ratio = r; e.c.N = N; e.c.in_menu = in; e.c.out_menu = out; e.c.x = x.data (); e.c.ref = &ref;
		e.c.count_slack = slack (conv, r, N); e.c.tol = is_sinc (conv) ? 2e-5 : 2e-6; e.c.dev = dev;
		long i = 0, o = 0, cap = (long) (pblock * r) + 8;
		e.out.assign ((cap + 1) * ch, 0);
		for (int guard = 0; i < P && guard < 100000; guard++)
		{	R q = process_ok (s, x.data () + i * ch, std::min (pblock, P - i), e.out.data (), cap, r, 0);
			e.check_out (o, q.gen); cnt.trans++;
			i += q.used; o += q.gen;
			if (!q.used && !q.gen) break;
		}
		e.run (s, i, o);
	});
}
// Calls without input or without room, over and over (until the state recurs or 70000 times), at every place of a stream.
static void idle (int conv, int ch, double r, long blk, int kind)
{	add (str ("%s ch=%d ratio=%.9g idle calls of kind %d between blocks of %ld", conv_name (conv), ch, r, kind, blk), [=] () {
		long N = is_sinc (conv) ? (long) (3 * half_span (conv, r)) + 8 : 24; std::vector<float> x = make_signal (ch, N), ref = oneshot (conv, ch, r, x.data (), N), out ((N * r + 100) * ch), all;
		arena_reset (); statics_restore (); trace_len = 0; SRC_STATE *s = make (conv, ch); long i = 0, cap = out.size () / ch - 1;
		auto put = [&] (R q) { all.insert (all.end (), out.begin (), out.begin () + q.gen * ch); i += q.used; cnt.trans++; };
		auto idles = [&] () { repeat (i == 0 || i > N / 2 ? 70000 : 200, [&] (long) { put (kind == 0 ? process_ok (s, x.data () + i * ch, 0, out.data (), cap, r, 0) : kind == 1 ? process_ok (s, x.data () + i * ch, 0, out.data (), 0, r, 0) : kind == 2 ? process_ok (s, NULL, 0, out.data (), cap, r, 0) : process_ok (s, x.data () + i * ch, std::min (blk, N - i), out.data (), 0, r, 0)); }); };
		for (int g = 0; i < N && g < 3000; g++) { idles (); put (process_ok (s, x.data () + i * ch, std::min (blk, N - i), out.data (), cap, r, 0)); }
		idles (); for (int g = 0; g < 6; g++) put (process_ok (s, x.data () + i * ch, N - i, out.data (), cap, r, 1));
		long have = ref.size () / ch, got = all.size () / ch; cnt.traces++; cnt.evals += got * ch;
		if (i != N) fail ("%ld of %ld input frames were consumed", i, N);
		if (labs (have - got) > (is_dyadic (r) && conv != ZOH ? 0 : 1)) fail ("%ld frames with idle calls in between, %ld in one call", got, have);
		for (long k = 0; k < std::min (have, got) * ch; k++) if (!(fabs (all[k] - ref[k]) <= (is_sinc (conv) ? 2e-5 : 2e-6))) fail ("output frame %ld is %.9g, one call gives %.9g", k / ch, all[k], ref[k]);
	});
}
// Every ratio of the sweep, and every block size and capacity of the sweep, in fixed patterns of calls against one call.
static void against (SRC_STATE *s, Image &fresh, int conv, int ch, double r, const std::vector<float> &x, long N, const std::vector<float> &ref, long blk, long cap, bool late, std::vector<float> &o)
{	fresh.restore (); trace_len = 1; long have = (long) ref.size () / ch; double tol = is_sinc (conv) ? 2e-5 : 2e-6;
	long got = convert_cut (s, ch, r, x.data (), N, blk, cap, late, o, [&] (long at, long g, const float *d) {
		cnt.evals += g * ch;
		for (long k = 0; k < g && at + k < have; k++) for (int c = 0; c < ch; c++) if (!(fabs (d[k * ch + c] - ref[(at + k) * ch + c]) <= tol))
			fail ("blocks of %ld, room for %ld: output frame %ld channel %d is %.9g, one call gives %.9g (%s, %d channels, ratio %.17g, %ld frames)", blk, cap, at + k, c, d[k * ch + c], ref[(at + k) * ch + c], conv_name (conv), ch, r, N);
	});
	if (labs (got - have) > slack (conv, r, N)) fail ("blocks of %ld, room for %ld: %ld output frames, one call gives %ld (%s, %d channels, ratio %.17g, %ld frames)", blk, cap, got, have, conv_name (conv), ch, r, N);
}
static void every_ratio (int conv, int ch, std::vector<double> rs)
{	add (str ("%s ch=%d %zu ratios %.4g.. in fixed patterns of calls", conv_name (conv), ch, rs.size (), rs[0]), [=] () {
		std::vector<float> o;
		for (double r : rs)
		{	long N = is_sinc (conv) ? (long) (3.1 * half_span (conv, r)) + 20 : r < 1 ? (long) (40 / r) : r > 20 ? 7 : 61; if (r > 1) N = std::min (N, 10 + (long) (30000 / r));
			arena_reset (); statics_restore (); trace_len = 0;
			std::vector<float> x = make_signal (ch, N), ref = oneshot (conv, ch, r, x.data (), N); arena_reset (); statics_restore ();
			SRC_STATE *s = make (conv, ch); Image fresh; fresh.save (); long all = (long) (N * r) + 50, b = std::max (1l, N / 11), m = std::max (1l, (long) (b * r));
			against (s, fresh, conv, ch, r, x, N, ref, b, m + 1, false, o); against (s, fresh, conv, ch, r, x, N, ref, N, std::max (1l, m / 2), false, o);
			against (s, fresh, conv, ch, r, x, N, ref, std::max (1l, b / 3), all, true, o); against (s, fresh, conv, ch, r, x, N, ref, b, m, true, o);
			against (s, fresh, conv, ch, r, x, N, ref, r < 0.1 ? 7 : 1, all, false, o); against (s, fresh, conv, ch, r, x, N, ref, N, r > 10 ? 7 : 1, false, o);
		}
	});
}
static void every_size (int conv, int ch, double r, long N, std::vector<long> sizes)
{	add (str ("%s ch=%d ratio=%.9g every block size and capacity up to %ld", conv_name (conv), ch, r, sizes.back ()), [=] () {
		std::vector<float> x = make_signal (ch, N), ref = oneshot (conv, ch, r, x.data (), N), o; arena_reset (); statics_restore (); trace_len = 0;
		SRC_STATE *s = make (conv, ch); Image fresh; fresh.save (); long all = (long) (N * r) + 50;
		for (long b : sizes)
		{	against (s, fresh, conv, ch, r, x, N, ref, b, all, b & 1, o); against (s, fresh, conv, ch, r, x, N, ref, N, b, b & 1, o);
			against (s, fresh, conv, ch, r, x, N, ref, b, b, false, o); against (s, fresh, conv, ch, r, x, N, ref, b, std::max (1l, (long) ceil (b * r)), true, o); }
	});
}
void setup_tasks ()
{	property_id = "C01";
	rule = "A case is one src_process call made in one reachable state (stream position, output position, complete memory image of the library) of one configuration; it is non-trivial when the call consumed or produced frames.";
	explanation = "Explicit-state search over the real library: states are complete memory images, transitions are src_process calls with every block size and capacity of the menu, every sample produced is compared with the one-call conversion. States with equal images and positions are merged.";
	extra_names = { { "configurations_cut_off_by_budget", 0 } };
	bool T = thorough ();
	const int ALL = 1000, D = T ? 3 : 2;
	std::vector<double> ratios = { 1.0, 2.0, 0.5, 1.5, 0.75, 3.0, 1.0 / 3, 44100.0 / 48000, 48000.0 / 44100, 0.1, 10.0, 0.987654321, 1.0123, 256.0, 1.0 / 256, 0.25, 4.0, 7.3, 1 / 7.3 };
	std::vector<long> in = { 1, 0, 2, 3, 5, 7, 8, 1000 }, out = { 1, 0, 2, 3, 4, 7, 1000 };
	// all cuttings into any block size, small streams
	for (int conv : { ZOH, LIN })
		for (double r : ratios)
			for (int ch : { 1, 2, 3, 5 })
			{	long N = r < 0.02 ? 700 : r < 0.3 ? 40 : r > 100 ? 3 : r > 5 ? 9 : 16;
				std::vector<long> im = in, om = out;
				if (r < 0.02) { im = { 1, 0, 50, 255, 256, 257, 300, 1000 }; om = { 1, 0, 2, 1000 }; }
				if (r > 100) om = { 1, 0, 2, 100, 255, 256, 257, 1000 };
				short_stream (conv, ch, r, N, im, om, ALL);
			}
	for (int conv : { ZOH, LIN }) for (int ch : { 4, 6, 7, 8, 16, 128, 300 }) for (double r : { 1.0, 0.6, 1.7 }) short_stream (conv, ch, r, 12, in, { 1, 0, 3, 1000 }, ALL);
	// sinc: streams from shorter than the filter to several filter lengths
	for (double r : ratios)
		for (int conv : { FAST, MED })
			for (int ch : { 1, 2 })
			{	double span = half_span (conv, r);
				long N = r > 100 ? 6 : r > 5 ? (long) span + 10 : (long) (3 * span) + 8;
				long k = std::max (1l, N / 24), ko = std::max (1l, (long) (k * r));
				if (r > 5) { k = 1; ko = (long) r; }
				std::vector<long> im = { k, 0, 1, 2 * k + 1, 5 * k, 11 * k + 3, 100000 }, om = { ko, 0, 1, 3 * ko + 1, 100000 };
				if (N > 400) { im = { 3 * k, 7 * k + 1, 0, 100000 }; om = { 3 * ko + 1, 1, 100000 }; }
				short_stream (conv, ch, r, N, im, om, D);
			}
	for (int conv : { FAST, MED }) for (int ch : { 3, 4, 5, 6, 7, 8, 12 }) for (double r : { 1.0, 0.7, 1.6 })
		short_stream (conv, ch, r, 3 * (long) half_span (conv, r) + 5, { 9, 0, 1, 30, 100000 }, { 9, 0, 1, 25, 100000 }, D);
	for (int ch : { 17, 128 }) short_stream (FAST, ch, 0.9, 70, { 9, 30, 0, 100000 }, { 9, 1, 100000 }, D);
	// all N from 0 up: very short streams, whose ends meet
	for (int conv : { FAST, MED, ZOH, LIN }) for (int ch : { 1, 2, 3 }) for (double r : { 1.0, 0.5, 0.3, 2.0, 1.3 }) for (long N : { 0, 1, 2, 3, 4 })
		short_stream (conv, ch, r, N, { 1, 0, 2, 100 }, { 1, 0, 2, 1000 }, ALL);
	for (int conv : { FAST, MED, ZOH, LIN }) for (int ch : { 1, 2, 3, 4, 6 }) for (double r : { 1.0, 0.5, 1.3, 0.3 }) for (int kind : { 0, 1, 2, 3 }) { if (conv == MED && ch > 1) continue; idle (conv, ch, r, is_sinc (conv) ? 31 : 3, kind); }
	for (int part = 0; part < 4; part++) for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) { if (conv == MED && ch > 2 && !T) continue; every_ratio (conv, ch, some_ratios (4, part)); }
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (double r : { 1.0, 0.91875, 1.7, 0.3 })
	{	if (!T && (conv == MED || ch > 3) && r != 1.7) continue;
		if (!T && conv == MED && ch > 2) continue;
		every_size (conv, ch, r, 3000, sweep_sizes (3000, T ? 1100 : 300)); if (r != 0.3 || T) every_size (conv, ch, r, 70000, sweep_sizes (70000, 0));
	}
	// windows around the wrap of the sinc buffer: 4 and 3 maximal half filters, minus what is kept
	std::vector<double> wr = { 1.0, 0.5, 1.7, 0.9 };
	if (T) { wr.push_back (0.05); wr.push_back (3.0); wr.push_back (1.0 / 256); }
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 6, 7 }) for (double r : wr)
	{	if (!T && conv == MED && (ch > 2 || r != 1.0)) continue;
		if (!T && ch > 2 && r != 0.9) continue;
		Filter f = filter_of (conv);
		long maxhalf = lrint ((double) f.len / f.inc * 256 + 1), span = (long) half_span (conv, r) + 2;
		for (long mult : { 3, 4 })
			for (long d : { -2, -1, 0, 1, 2 })
			{	if (!T && ch > 1 && d != 0 && d != -1) continue;
				long P = mult * maxhalf - 2 * span + d * (span / 2 + 1);
				window (conv, ch, r, P, 4 * span, d & 1 ? 1000 : 1000000, { span / 4 + 1, 1, 0, span, 100000 }, { (long) (span * r / 4) + 1, 1, 100000 }, D);
			}
	}
}
