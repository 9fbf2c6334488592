// C06: ZOH and linear converters interpolate exactly, frame by frame, and report exactly what they consumed.
#include "varexp.hpp"
using namespace mc;
static void cuts (int conv, int ch, std::vector<double> rs, long N, std::vector<long> in, std::vector<long> out, int depth, bool eofs)
{	std::string rn; for (double r : rs) rn += str (" %.9g", r);
	add (str ("%s ch=%d ratio%s N=%ld depth=%d", conv_name (conv), ch, rn.c_str (), N, depth), [=] () {
		VarExplorer e; e.conv = conv; e.ch = ch; e.N = N; e.in = in; e.out = out; e.ratios = rs; e.depth = depth; e.eofs = eofs; e.run ();
	});
}
// A long stream in a fixed pattern of calls, every frame checked against its exact position.
static void longrun (int conv, int ch, double r, long N, std::vector<std::pair<long,long>> pat)
{	add (str ("%s ch=%d ratio=%.9g stream of %ld frames, pattern of %zu calls starting (%ld,%ld)", conv_name (conv), ch, r, N, pat.size (), pat[0].first, pat[0].second), [=] () {
		VarExplorer e; e.conv = conv; e.ch = ch; e.N = N; e.ratios = { r }; e.out = { 1 }; for (auto &p : pat) e.out.push_back (p.second);
		e.setup (); e.s = make (conv, ch); VarModel m; m.conv = conv; long i = 0, outs = 0, idle = 0;
		for (long k = 0; i < N && idle < 1000; k++)
		{	auto &p = pat[k % pat.size ()]; long n = std::min (p.first, N - i);
			trace_len = 1;
			R q = process_ok (e.s, e.x.data () + i * ch, n, e.o.data (), p.second, r, 0); cnt.trans++; cnt.states++; cnt.nontriv++;
			// exact position of the next frame, free of accumulated rounding
			long double pp = (long double) outs / (long double) r; m.b = (long) floorl (pp); m.f = (double) (pp - m.b);
			e.verify (m, i, n, p.second, r, q, false);
			i += q.used; outs += q.gen; idle = q.used || q.gen ? 0 : idle + 1;
		}
		if (i < N) fail ("stream of %ld frames got stuck at frame %ld", N, i);
		cnt.traces++;
	});
}
// The same for every ratio of the sweep, and for every block size and capacity.
static void run_against_positions (VarExplorer &e, SRC_STATE *s, int conv, int ch, double r, long N, long blk, long cap)
{	VarModel m; m.conv = conv; long i = 0, outs = 0, idle = 0; e.s = s;
	while (i < N && idle < 1000)
	{	long n = std::min (blk, N - i); trace_len = 1; tr ("(stream position %.0f, blocks of %.0f, room for %.0f)", i, blk, cap);
		R q = process_ok (s, e.x.data () + i * ch, n, e.o.data (), cap, r, 0); cnt.trans++; cnt.states++; cnt.nontriv++;
		long double pp = (long double) outs / (long double) r; m.b = (long) floorl (pp); m.f = (double) (pp - m.b);
		e.verify (m, i, n, cap, r, q, false); i += q.used; outs += q.gen; idle = q.used || q.gen ? 0 : idle + 1;
	}
	if (i < N) fail ("stream of %ld frames got stuck at frame %ld", N, i);
	cnt.traces++;
}
static void every_ratio (int conv, int ch)
{	add (str ("%s ch=%d every ratio of the sweep", conv_name (conv), ch), [=] () {
		const long NX = 20000; std::vector<float> x = make_signal (ch, NX);
		for (double r : sweep_ratios ()) for (int k = 0; k < 4; k++)
		{	long N = r < 1 ? std::min (NX, (long) (300 / r)) : (long) (300 / std::min (r, 40.0)) + 5, blk = k == 0 ? 1 : k == 1 ? 64 : k == 2 ? 300 : N, cap = k == 0 ? 3 : k == 1 ? std::max (1l, (long) (64 * r)) : k == 2 ? 1 : (long) (N * r) + 5;
			arena_reset (); statics_restore (); trace_len = 0; VarExplorer e; e.conv = conv; e.ch = ch; e.N = N; e.ratios = { r }; e.out = { cap }; e.x = x; e.setup ();
			run_against_positions (e, make (conv, ch), conv, ch, r, N, blk, cap); }
	});
}
static void every_size (int conv, int ch, double r, std::vector<long> sizes)
{	add (str ("%s ch=%d ratio=%.9g every block size and capacity up to %ld", conv_name (conv), ch, r, sizes.back ()), [=] () {
		std::vector<float> x = make_signal (ch, 3 * sizes.back () + 100);
		for (long b : sizes) for (int k = 0; k < 4; k++)
		{	long blk = k == 1 ? 7 : b, cap = k == 0 ? std::max (1l, (long) (b * r)) : k == 2 ? 2 * (long) (b * r) + 9 : b, N = 2 * b + 37; if (k == 1) N = 2 * (long) (b / r) + 37; N = std::min (N, 3 * sizes.back ());
			arena_reset (); statics_restore (); trace_len = 0; VarExplorer e; e.conv = conv; e.ch = ch; e.N = N; e.ratios = { r }; e.out = { cap }; e.x.swap (x); e.setup ();
			run_against_positions (e, make (conv, ch), conv, ch, r, N, blk, cap); e.x.swap (x); }
	});
}
// Signals of every kind of values: no value may be altered by a zero-order hold, and none be treated specially by either.
static void values (int conv, int ch, std::vector<double> rs)
{	add (str ("%s ch=%d particular values, %zu ratios %.9g..", conv_name (conv), ch, rs.size (), rs[0]), [=] () {
		for (int kind = 0; kind < VALUE_KINDS; kind++) for (double r : rs)
		{	long N = r < 1 ? (long) (60 / r) : 60 + (long) (300 / r); std::vector<float> x = odd_signal (kind, ch, N);
			long b[] = { 1, 2, 7, N, N, 13 }, cap[] = { 1, (long) (2 * r) + 1, 3, (long) (N * r) + 5, 1, 40 };
			for (int k = 0; k < 6; k++)
			{	arena_reset (); statics_restore (); trace_len = 0; tr ("(signal of kind %.0f)", kind); VarExplorer e; e.conv = conv; e.ch = ch; e.N = N; e.ratios = { r }; e.out = { cap[k] }; e.x = x; e.setup ();
				run_against_positions (e, make (conv, ch), conv, ch, r, N, b[k], cap[k]); }
		}
	});
}
static void values_ramp (int conv, int ch, int kind, std::vector<double> rs)
{	add (str ("%s ch=%d values of kind %d, ratio changes %.4g..", conv_name (conv), ch, kind, rs[0]), [=] () {
		VarExplorer e; e.conv = conv; e.ch = ch; e.N = 40; e.in = { 1, 0, 2, 5 }; e.out = { 1, 3, 12 }; e.ratios = rs; e.depth = thorough () ? 5 : 4; e.eofs = true; e.x = odd_signal (kind, ch, e.N); e.run ();
	});
}
void setup_tasks ()
{	property_id = "C06"; bool T = thorough ();
	rule = "A case is one src_process call (block size, capacity, ratio, preceding src_set_ratio or not) in one reachable state; every sample, the number of frames and input_frames_used are compared with the model; non-trivial when frames moved.";
	explanation = "Explicit-state search of the real zero-order-hold and linear converters against an exact position model, all call sequences over the menu, state merging on memory images; plus long fixed patterns checked frame by frame against k/ratio.";
	std::vector<double> rs = { 1.0, 2.0, 0.5, 1.5, 0.75, 3.0, 1.0 / 3, 44100.0 / 48000, 48000.0 / 44100, 0.1, 10.0, 0.987654321, 1.0123, 0.25, 4.0, 7.3, 1 / 7.3, 0.2, 5.0, 1.99999, 0.6, 1.0000001, 0.9999999 };
	for (int conv : { LIN, ZOH })
	{	for (double r : rs) for (int ch : { 1, 2, 3, 4, 5, 7 }) cuts (conv, ch, { r }, r < 0.3 ? 45 : r > 5 ? 8 : 14, { 1, 0, 2, 3, 5, 8, 13 }, { 1, 0, 2, 3, 5, 8, 40 }, 1000, true);
		for (double r : { 1.0 / 256, 1 / 255.9, 0.0101 }) for (int ch : { 1, 2, 3 }) cuts (conv, ch, { r }, 900, { 1, 0, 100, 255, 256, 257, 300, 513 }, { 1, 0, 2, 10 }, 1000, true);
		for (double r : { 256.0, 255.9, 99.9 }) for (int ch : { 1, 2, 3 }) cuts (conv, ch, { r }, 4, { 1, 0, 2, 3 }, { 1, 0, 2, 100, 255, 256, 257, 1000 }, 1000, true);
		for (int ch : { 6, 8, 16, 31, 64, 128, 129, 500 }) for (double r : { 0.7, 1.6 }) cuts (conv, ch, { r }, 9, { 1, 0, 2, 4 }, { 1, 0, 3, 20 }, 1000, true);
		for (int ch : { 1, 2, 3 })
		{	cuts (conv, ch, { 1.0, 0.3 }, 40, { 1, 0, 2, 7 }, { 1, 0, 3, 10 }, T ? 6 : 5, true);
			cuts (conv, ch, { 0.5, 2.0, 1.0 }, 40, { 1, 3, 9 }, { 1, 4, 12 }, T ? 6 : 4, true);
			cuts (conv, ch, { 1.0 / 256, 256.0, 1.1 }, 1500, { 1, 257, 600 }, { 1, 5, 300 }, T ? 5 : 4, true);
			cuts (conv, ch, { 0.13, 1.9 }, 60, { 1, 2, 11 }, { 1, 2, 9 }, T ? 7 : 5, false);
		}
		for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 }) { every_ratio (conv, ch); for (double r : { 1.0, 0.91875, 1.7, 0.3 }) every_size (conv, ch, r, sweep_sizes (T ? 100000 : 66000, T ? 1100 : 300)); }
		for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 })
		{	for (int k = 0; k < 4; k++) values (conv, ch, some_ratios (T ? 4 : 8, T ? k : 2 * k + (ch & 1)));
			if (ch <= 3) for (int kind = 0; kind < VALUE_KINDS; kind++) { values_ramp (conv, ch, kind, { 1.0, 0.4 }); if (T || ch == 1) { values_ramp (conv, ch, kind, { 2.0, 1.1 }); values_ramp (conv, ch, kind, { 0.7 }); } }
		}
		std::vector<std::vector<std::pair<long,long>>> pats = { {{1,1}}, {{64,64}}, {{1,0},{3,2},{0,5},{17,4}}, {{1000,997}}, {{5,1}}, {{1,7},{2,1}}, {{4096,10000}} };
		for (double r : { 44100.0 / 48000, 48000.0 / 44100, 0.1, 1 / 3.0, 3.0, 1.0000001, 0.3333, 2.718281828, 0.577215, 1 / 100.1, 10.3 })
			for (auto &p : pats) longrun (conv, 1 + (p.size () % 3), r, T ? 3000000 : 200000, p);
	}
}
