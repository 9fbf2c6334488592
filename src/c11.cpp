// C11: a changing ratio follows the documented trajectory without jumps.
#include "varexp.hpp"
using namespace mc;
static void cuts (int conv, int ch, std::vector<double> rs, long N, std::vector<long> in, std::vector<long> out, int depth, bool eofs)
{	std::string rn; for (double r : rs) rn += str (" %.9g", r);
	add (str ("%s ch=%d ratios%s N=%ld blocks up to %ld/%ld depth=%d", conv_name (conv), ch, rn.c_str (), N, in.back (), out.back (), depth), [=] () {
		VarExplorer e; e.conv = conv; e.ch = ch; e.N = N; e.in = in; e.out = out; e.ratios = rs; e.depth = depth; e.eofs = eofs; e.tol = 3e-6; e.run ();
	});
}
// A long prefix at ratio r0 up to somewhere around the wrap of the sinc buffer, then all ratio changes.
static void after (int conv, int ch, double r0, long P, std::vector<double> rs, std::vector<long> in, std::vector<long> out, int depth)
{	add (str ("%s ch=%d %ld frames at ratio %.9g, then changes to %g..%g", conv_name (conv), ch, P, r0, rs[0], rs.back ()), [=] () {
		VarExplorer e; e.conv = conv; e.ch = ch; e.N = P + in.back () * depth; e.in = in; e.out = out; e.ratios = rs; e.depth = depth;
		long blk = 977, cap = (long) (blk * r0) + 2; e.out.push_back (cap); e.setup (); e.out.pop_back ();
		e.s = make (conv, ch); VarModel m; m.conv = conv; long i = 0;
		for (long g = 0; i < P && g < 100000; g++)
		{	long n = std::min (blk, P - i); R q = process_ok (e.s, e.x.data () + i * ch, n, e.o.data (), cap, r0, 0); cnt.trans++;
			m.note_call (r0); m.frames (q.gen, cap, r0, [] (long, const VarModel::Pt &) {}); i += q.used;
			if (!q.used && !q.gen) break;
		}
		e.dfs (1, i, m, false);
	});
}
// Tens of thousands of small calls with a ratio that keeps changing, by ramp or by step, against the trajectory.
static void marathon (int conv, int ch, std::vector<double> rs, long calls, long n, long m, int how)
{	add (str ("%s ch=%d %ld calls of %ld frames, ratios %g.. %s", conv_name (conv), ch, calls, n, rs[0], how == 0 ? "ramping" : how == 1 ? "stepping" : "ramping and stepping"), [=] () {
		VarExplorer e; e.conv = conv; e.ch = ch; e.N = (calls + 10) * n; e.in = { n }; e.out = { m }; e.tol = 1e-5; e.setup (); e.s = make (conv, ch); VarModel mo; mo.conv = conv; long i = 0; int tl = trace_len;
		for (long k = 0; k < calls; k++)
		{	trace_len = tl; tr ("(after %.0f calls)", k); double r = rs[k % rs.size ()];
			if (k && (how == 1 || (how == 2 && k % 3 == 0))) { tr ("src_set_ratio (%.17g)", r); int er = src_set_ratio (e.s, r); if (er) fail ("src_set_ratio returned %d", er); mo.last = r; if (k % 7 == 0) { src_set_ratio (e.s, rs[(k + 1) % rs.size ()]); src_set_ratio (e.s, r); } }
			R q = process_ok (e.s, e.x.data () + i * ch, n, e.o.data (), m, r, 0); cnt.trans++; cnt.states++; if (q.gen) cnt.nontriv++;
			e.verify (mo, i, n, m, r, q, false); i += q.used; }
		arena_check (); cnt.traces++; sample_trace ("the end of very many calls with changing ratio");
		// and many settings in a row, of which the last one counts
		trace_len = tl; for (long k = 0; k < 140000; k++) { int er = src_set_ratio (e.s, rs[k % rs.size ()]); if (er) fail ("src_set_ratio returned %d", er); }
		mo.last = rs[139999 % rs.size ()]; tr ("140000 times src_set_ratio, the last one %.17g", mo.last);
		for (int k = 0; k < 4; k++) { R q = process_ok (e.s, e.x.data () + i * ch, n, e.o.data (), m, mo.last, 0); e.verify (mo, i, n, m, mo.last, q, false); i += q.used; }
	});
}
// From every ratio to every other, by ramp and by step, and back.
static void pairs (int conv, int ch, std::vector<double> from, std::vector<double> to)
{	add (str ("%s ch=%d from %zu ratios %.4g.. to %zu ratios %.4g..", conv_name (conv), ch, from.size (), from[0], to.size (), to[0]), [=] () {
		double lo = 999; for (double r : from) lo = std::min (lo, r); for (double r : to) lo = std::min (lo, r);
		long NX = (long) (100 / lo + (is_sinc (conv) ? 7 * half_span (conv, lo) : 0)) + 1000; std::vector<float> x = make_signal (ch, NX);
		for (double r1 : from) for (double r2 : to) for (int how = 0; how < 2; how++)
		{	double rm = std::min (r1, r2), rx = std::max (r1, r2); long cap1 = 5, cap2 = 12;
			// input for all of it at once, so that no call runs out of frames
			long need = (long) (45 / rm) + (is_sinc (conv) ? (long) (3 * half_span (conv, rm)) : 0) + 20; need = std::min (need, NX / 3);
			arena_reset (); statics_restore (); trace_len = 0; VarExplorer e; e.conv = conv; e.ch = ch; e.N = NX; e.ratios = { r1, r2 }; e.out = { cap1, cap2 }; e.tol = 3e-6; e.x.swap (x); e.setup ();
			e.s = make (conv, ch); VarModel m; m.conv = conv; long i = 0; (void) rx;
			const double seq[4] = { r1, r2, r2, r1 }; const long caps[4] = { cap1, cap2, cap1, cap2 };
			for (int k = 0; k < 4; k++)
			{	double r = seq[k]; if (how && k && r != m.last) { tr ("src_set_ratio (%.17g)", r); int er = src_set_ratio (e.s, r); if (er) fail ("src_set_ratio returned %d", er); m.last = r; }
				long n = std::min (need, NX - i); R q = process_ok (e.s, e.x.data () + i * ch, n, e.o.data (), caps[k], r, 0); cnt.trans++; cnt.states++; cnt.nontriv += q.gen > 0;
				e.verify (m, i, n, caps[k], r, q, false); i += q.used; }
			cnt.traces++; e.x.swap (x);
		}
	});
}
// One ramp and one step in calls of every capacity and block size.
static void every_size (int conv, int ch, double r1, double r2, std::vector<long> sizes)
{	add (str ("%s ch=%d ratio %.9g to %.9g in calls of every capacity up to %ld", conv_name (conv), ch, r1, r2, sizes.back ()), [=] () {
		double lo = std::min (r1, r2); long NX = (long) ((3 * sizes.back () + 300) / lo) + 6000; std::vector<float> x = make_signal (ch, NX);
		for (long cap : sizes) for (int how = 0; how < 3; how++)
		{	long need = how == 2 ? cap : (long) ((cap + 50) / lo) + (is_sinc (conv) ? (long) (3 * half_span (conv, lo)) : 0) + 20;
			arena_reset (); statics_restore (); trace_len = 0; VarExplorer e; e.conv = conv; e.ch = ch; e.N = NX; e.ratios = { r1, r2 }; e.out = { cap, 50 }; e.tol = 1e-5; e.x.swap (x); e.setup ();
			e.s = make (conv, ch); VarModel m; m.conv = conv; long i = 0;
			for (int k = 0; k < 3; k++)
			{	double r = k == 1 ? r2 : r1; long c = k == 0 ? std::min (cap, 50l) : cap; if (how == 1 && k) { tr ("src_set_ratio (%.17g)", r); src_set_ratio (e.s, r); m.last = r; }
				long n = std::min (need, NX - i); R q = process_ok (e.s, e.x.data () + i * ch, n, e.o.data (), c, r, 0); cnt.trans++; cnt.states++; cnt.nontriv += q.gen > 0;
				e.verify (m, i, n, c, r, q, false); i += q.used; }
			cnt.traces++; e.x.swap (x);
		}
	});
}
void setup_tasks ()
{	property_id = "C11"; bool T = thorough ();
	rule = "A case is one src_process call with a ratio of the menu, after src_set_ratio or not, in one reachable state; every sample is compared with the converter's interpolation at the position the documented trajectory gives; non-trivial when frames moved.";
	explanation = "Explicit-state search over sequences of calls with constant, stepped and ramped ratios on the real converters, against a model of the trajectory (linear in the output frame index over the capacity of the call) and reference interpolators.";
	extra_names = { { "configurations_cut_off_by_budget", 0 } };
	assumptions = { "the ramp is linear over the capacity (output_frames) of the call, as the library has always done" };
	for (int conv : { LIN, ZOH }) for (int ch : { 1, 2, 3, 5 })
	{	cuts (conv, ch, { 1.0, 0.3, 2.0 }, 60, { 1, 4, 0, 9 }, { 1, 5, 0, 13 }, T ? 5 : 4, true);
		cuts (conv, ch, { 0.9, 1.1 }, 60, { 3, 1, 8 }, { 3, 1, 10 }, T ? 7 : 5, false);
		cuts (conv, ch, { 1.0 / 256, 256.0, 1.0 }, 1200, { 1, 300 }, { 2, 300 }, T ? 6 : 5, true);
		cuts (conv, ch, { 0.25, 1.0, 4.0, 0.5 }, 100, { 2, 13 }, { 1, 20 }, T ? 6 : 5, false);
	}
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7 })
	{	int d = conv == FAST ? (ch <= 2 ? 4 : 3) : (ch <= 2 ? 3 : 2); if (T) d++;
		cuts (conv, ch, { 1.0, 0.4, 2.0 }, 2000, { 150, 7, 0 }, { 40, 1 }, d, true);
		cuts (conv, ch, { 0.95, 1.05 }, 2000, { 200, 40 }, { 60, 7 }, d, false);
		cuts (conv, ch, { 4.0, 1.0, 0.25 }, 4000, { 600, 64 }, { 100, 3 }, d - 1, true);
	}
	for (int conv : { FAST, MED }) for (int ch : { 1, 2 }) cuts (conv, ch, { 1.0, 1.0 / 256, 256.0, 0.01 }, conv == FAST ? 30000 : 60000, { conv == FAST ? 6000 : 13000, 100 }, { 12, 300 }, conv == FAST ? 3 : 2, true);
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (int how = 0; how < 3; how++)
	{	if (conv == MED && (ch > 1 || how) && !T) continue;
		bool sc = is_sinc (conv); long calls = !sc ? 70000 : ch == 1 && how == 0 ? 70000 : 20000 / ch; if (T) calls *= 3;
		marathon (conv, ch, { 0.9, 1.1, 0.7 }, calls, sc ? 2 : 5, sc ? 2 : 6, how); if (!sc) marathon (conv, ch, { 2.0, 0.5, 1.0 }, calls, 4, 5, how); }
	for (int conv : { LIN, ZOH }) for (int ch : { 1, 2, 3, 4 }) for (int k = 0; k < 7; k++) pairs (conv, ch, some_ratios (T ? 14 : ch < 3 ? 42 : 84, 2 * k), some_ratios (7, k + ch));
	for (int ch : { 1, 2, 3, 4, 6 }) for (int k = 0; k < 6; k++) pairs (FAST, ch, some_ratios (ch == 1 || T ? 40 : 130, 3 * k + ch), some_ratios (ch == 1 || T ? 21 : 60, 3 * k + 1 + ch));
	for (int ch : { 1, 2 }) for (int k = 0; k < 3; k++) pairs (MED, ch, some_ratios (T ? 60 : 150, 11 * k + ch), some_ratios (T ? 40 : 90, 7 * k + 1 + ch));
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 })
	{	if (conv == MED && ch > 1 && !T) continue;
		for (int k = 0; k < 3; k++) { double a = k == 0 ? 1.0 : k == 1 ? 0.91875 : 2.0, b = k == 0 ? 1.001 : k == 1 ? 0.5 : 1.1; if (is_sinc (conv) && (ch > 2 || conv == MED) && k != 1 && !T) continue;
			every_size (conv, ch, a, b, sweep_sizes (is_sinc (conv) ? (T ? 5000 : ch > 2 || conv == MED ? 600 : 2100) : T ? 200000 : 110000, is_sinc (conv) ? (T ? 300 : 40) : 300)); } }
	for (int ch : { 16, 128 }) cuts (FAST, ch, { 1.0, 0.5, 2.0 }, 1000, { 200 }, { 30 }, 3, false);
	// ratio changes so small that only their sum over many frames shows
	for (int conv : { LIN, ZOH, FAST }) for (int ch : { 1, 2, 3, 4, 6 }) for (double r0 : { 1.0, 0.1, 1 / 3.0, 100.0 })
	{	if (!T && ch > 2 && (r0 != 1.0 || conv != FAST)) continue;
		std::vector<double> rs; for (double d : { 0.0, 3e-9, 1e-7, 5e-6, 2e-4, -4e-5 }) rs.push_back (r0 * (1 + d));
		long in = r0 > 1 ? 300 : 6000, out = lrint (std::min (in * r0, 6000.0)); if (conv == FAST && r0 < 1) out /= 2;
		cuts (conv, ch, rs, 4 * in, { in }, { out }, ch == 1 || conv != FAST ? 3 : 2, false);
	}
	// around the wrap of the buffer, where history is dropped
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (double r0 : { 1.0, 3.0 })
	{	if (conv == MED && ch > 2 && !T) continue;
		long H = lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1), span = (long) half_span (conv, 1);
		for (long base : { 3 * H, 4 * H, 7 * H })
			for (long d = -3; d <= 3; d++)
			{	if (!T && (ch > 2 || base == 3 * H) && (d & 1)) continue;
				after (conv, ch, r0, base - span + d * span, { 0.25, 1.0, 0.03 }, { 300, 3000 }, { 20, 100 }, T ? 4 : 3);
			}
	}
}
