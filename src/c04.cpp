// C04: src_reset returns a converter to the state of a new one.
#include "ops.hpp"
#include "wide.hpp"
using namespace mc;

static void run_hist (int conv, int ch, bool cb, std::vector<Op> prefix, std::vector<Op> menu, int depth, std::vector<std::vector<Op>> probes, std::vector<std::vector<Op>> longprobes, std::vector<long> script)
{	Env e; e.init (ch); e.script.blocks = script;
	int err; SRC_STATE *s = cb ? src_callback_new (env_callback, conv, ch, &err, &e) : make (conv, ch, true);
	if (!s) fail ("cannot create the converter");
	Image fresh; fresh.save ();
	// what a fresh converter does
	int first = 0; while (first < (int) script.size () && script[first] < 0) first++;	// the continuations get no failing callback
	auto probe = [&] (const std::vector<Op> &p, Log &log) { Src src; src.pos = 1000; src.blk = first; for (auto &o : p) apply (e, s, src, o, &log); };
	std::vector<Log> want, wantlong;
	for (auto &p : probes) { fresh.restore (); Log l; probe (p, l); want.push_back (l); }
	for (auto &p : longprobes) { fresh.restore (); Log l; probe (p, l); wantlong.push_back (l); }
	fresh.restore (); trace_len = 0; tr (cb ? "src_callback_new (converter=%.0f, channels=%.0f)" : "src_new (converter=%.0f, channels=%.0f)", conv, ch);
	Src src; for (auto &o : prefix) apply (e, s, src, o, NULL);
	std::vector<Image> img; Image after; std::unordered_map<uint64_t, int> vis; std::unordered_set<uint64_t> resets; long nlong = 0;
	std::function<void(int, Src)> dfs = [&] (int d, Src src)
	{	while ((int) img.size () <= d) img.emplace_back ();
		img[d].save (); int tl = trace_len;
		// reset here and compare with fresh
		int r; tr ("src_reset ()"); { InCall g; r = src_reset (s); } if (r) fail ("src_reset returned %d", r);
		arena_check ();
		if (src_error (s)) fail ("src_error is %d after src_reset", src_error (s));
		uint64_t h = state_hash ();
		if (resets.insert (h).second)
		{	after.save (); int tl2 = trace_len;
			for (size_t i = 0; i < probes.size (); i++)
			{	after.restore (); trace_len = tl2; Log l; probe (probes[i], l); compare (want[i], l, "after src_reset, against a fresh converter"); cnt.traces++; }
			if (nlong < 12) for (size_t i = 0; i < longprobes.size (); i++, nlong++)
			{	after.restore (); trace_len = tl2; Log l; probe (longprobes[i], l); compare (wantlong[i], l, "after src_reset, against a fresh converter (long stream)"); cnt.traces++; }
			if (resets.size () == 2) sample_trace ("history, reset, probe");
		}
		if (d < depth)
			for (auto &o : menu)
			{	img[d].restore (); trace_len = tl; Src q = src;
				apply (e, s, q, o, NULL);
				uint64_t k = state_hash (mix (q.pos, mix (q.blk, q.ended)));
				auto it = vis.find (k);
				if (it == vis.end () || it->second > d + 1) { if (it == vis.end ()) { cnt.states++; cnt.nontriv++; } vis[k] = d + 1; dfs (d + 1, q); }
			}
		trace_len = tl;
	};
	dfs (0, src);
	cnt.extra[0] += resets.size ();
}
static void hist (int conv, int ch, bool cb, const char *nm, std::vector<Op> prefix, std::vector<Op> menu, int depth, bool longp, std::vector<long> script = {})
{	add (str ("%s ch=%d %s %s, depth %d", conv_name (conv), ch, cb ? "callback" : "process", nm, depth), [=] () {
		std::vector<std::vector<Op>> pr, lp;
		if (!cb) { pr = probes_process (is_sinc (conv), false); if (longp) lp = { { P (12000, 11000, 0.9), P (12000, 11000, 0.9), P (40000, 40000, 0.9), P (10, 2000, 0.9, 1) } }; }
		else pr = { { Rd (5, 1.0), Rd (40, 1.0), K (ERRQ), Rd (400, 1.0), Rd (400, 1.0) }, { Rd (1, 0.4), Rd (30, 0.4), Rd (900, 0.4), Rd (5, 0.4) }, { K (SETR, 2.0), Rd (20, 1.0), Rd (300, 1.5), Rd (2000, 1.5) } };
		run_hist (conv, ch, cb, prefix, menu, depth, pr, lp, script);
	});
}
// Use and reset, over and over: every round like the first, until the state recurs or 70000 times.
static void rounds (int conv, int ch, bool cb, std::vector<Op> ops, int no)
{	add (str ("%s ch=%d %s rounds of use and reset, number %d", conv_name (conv), ch, cb ? "callback" : "process", no), [=] () {
		Env e; e.init (ch, 4000); e.script.blocks = { 100, 1, 50, 0 }; int err;
		tr (cb ? "src_callback_new (converter=%.0f, channels=%.0f)" : "src_new (converter=%.0f, channels=%.0f)", conv, ch);
		SRC_STATE *s = cb ? src_callback_new (env_callback, conv, ch, &err, &e) : make (conv, ch, true); Log want;
		long k = repeat (70000, [&] (long n) { Src src; Log l; for (auto &o : ops) apply (e, s, src, o, &l); { InCall g; src_reset (s); } tr ("src_reset ()"); l.i (src_error (s)); if (n == 0) want = l; else compare (want, l, "a later round of use and reset, against the first"); });
		cnt.traces++; if (k < 0) cnt.extra[1]++;
	});
}
// A history at every ratio of the sweep, then reset, then a stream at that and at other ratios.
static void every_ratio (int conv, int ch, std::vector<double> rs)
{	add (str ("%s ch=%d histories at %zu ratios %.9g..", conv_name (conv), ch, rs.size (), rs[0]), [=] () {
		Env e; e.init (ch);
		for (double r : rs)
		{	arena_reset (); statics_restore (); trace_len = 0; SRC_STATE *s = make (conv, ch); Image fresh; fresh.save (); long a = (long) (is_sinc (conv) ? 1.3 * half_span (conv, r) : 2.0 + 2 / r) + 5;
			std::vector<std::vector<Op>> pr = { { P (a, 20, r), P (a, 300, r), P (a, 300, r, 1) }, { P (150, 30, 1.0), P (100, 30, 0.7), P (9, 300, 0.7, 1) }, { K (SETR, 1.2), P (a, 20, r), P (40, 20, 1.1) } };
			std::vector<Log> want; for (auto &p : pr) { fresh.restore (); Src q; Log l; for (auto &o : p) apply (e, s, q, o, &l); want.push_back (l); }
			std::vector<std::vector<Op>> hs = { { P (a, 20, r) }, { P (a, 20, r, 1), P (0, 300, r, 1) }, { P (30, 20, 1.0), P (a, 20, r) }, { P (30, 20, 1.0), K (SETR, r) }, { P (a, 30, r), P (100, 7, 0.8) } };
			for (auto &h : hs)
			{	fresh.restore (); trace_len = 1; Src q; for (auto &o : h) apply (e, s, q, o, NULL); tr ("src_reset ()"); { InCall g; if (src_reset (s)) fail ("src_reset failed"); } if (src_error (s)) fail ("src_error is %d after src_reset", src_error (s));
				Image after; after.save (); int tl = trace_len; cnt.states++; cnt.nontriv++;
				for (size_t k = 0; k < pr.size (); k++) { after.restore (); trace_len = tl; Src z; Log l; for (auto &o : pr[k]) apply (e, s, z, o, &l); compare (want[k], l, "after src_reset, against a fresh converter"); cnt.traces++; }
			}
		}
	});
}
static void wide (int conv, int ch)
{	add (str ("%s ch=%d very many channels", conv_name (conv), ch), [=] () {
		std::vector<float> x, y; std::vector<std::vector<float>> a, b; Log l; wide_stream (ch, 1, x); wide_stream (ch, -3, y); trace_len = 0; SRC_STATE *s = make (conv, ch); wide_run (s, ch, x.data (), a, l); src_delete (s);
		std::vector<float> o (40l * ch + 1);
		for (size_t k = 0; k <= wide_calls ().size (); k++)
		{	trace_len = 0; s = make (conv, ch); long at = 0; for (size_t j = 0; j < k; j++) { WideCall c = wide_calls ()[j]; R q = process_ok (s, y.data () + at * ch, c.n, o.data (), c.m, c.r, c.eof); at += q.used; }
			tr ("src_reset ()"); { InCall g; src_reset (s); } wide_run (s, ch, x.data (), b, l); wide_same (a, b, ch, "after src_reset, against a new converter"); src_delete (s); cnt.traces++; }
	});
}
void setup_tasks ()
{	property_id = "C04"; bool T = thorough ();
	rule = "A state is a distinct memory image reached by a history; from each one src_reset is called and, when the resulting image is new, all probe continuations are compared bit for bit with those of a fresh converter.";
	explanation = "Explicit-state search over histories (block sizes, ratios, steps, ramps, end_of_input, refused calls, callback reads); differential oracle: the same continuation on a fresh converter.";
	extra_names = { { "distinct_images_after_reset", 0 }, { "rounds_that_did_not_close", 0 } };
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 })
	{	bool sc = is_sinc (conv); if (conv == MED && ch > 1) continue; long a = sc ? 60 : 5;
		rounds (conv, ch, false, { P (a, 30, 1.0) }, 0); rounds (conv, ch, false, { P (a, 30, 1.0, 1), P (0, 90, 1.0, 1) }, 1); rounds (conv, ch, false, { K (SETR, 0.6), P (a, 9, 1.4) }, 2); rounds (conv, ch, false, { K (BADRATIO) }, 3);
		rounds (conv, ch, true, { Rd (20, 1.0) }, 4); rounds (conv, ch, true, { Rd (400, 0.7), Rd (5, 0.7) }, 5);
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 })
	{	bool sc = is_sinc (conv); 
		int D = (sc ? (ch <= 3 && conv != MED ? 4 : 3) : 5) + (T ? 2 : 0);
		long a = sc ? 120 : 4, b = sc ? 37 : 1;
		std::vector<Op> menu = { P (a, 30, 1.0), P (b, 7, 0.5), P (a, 1, 2.0), P (a, 100, 0.7, 1), P (0, 20, 1.0, 1), P (1, 0, 1.0), P (0, 3, 0.9), K (SETR, 0.3), K (SETR, 2.0), K (BADRATIO), K (BADREAD), K (OVERLAP), K (RESET) };
		hist (conv, ch, false, "from the start", {}, menu, D, ch <= 3);
		hist (conv, ch, false, "extreme ratios", {}, { P (sc ? 6000 : 300, 3, 1.0 / 256), P (a, 300, 256.0), P (a, 4, 0.01, 1), P (a, 9, 1.0), K (SETR, 1.0 / 256) }, D > 3 ? 3 : D, false);
		if (sc)
		{	long H = lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1);
			for (long d : { -60, -20, 5 }) hist (conv, ch, false, d < -40 ? "before the wrap" : d < 0 ? "at the wrap" : "after the wrap", { P (2 * H, 2 * H + 9, 1.0), P (2 * H + d, 2 * H + 9, 1.0) }, { P (30, 40, 1.0), P (100, 30, 0.5), P (20, 100, 1.0, 1), P (0, 100, 1.0, 1) }, 2 + T, ch <= 3);
		}
		if (ch <= 4)
		{	std::vector<long> script = sc ? std::vector<long> { 100, 1, 50, 200, 3, 0 } : std::vector<long> { 3, 1, 10, 2, 30, 0 };
			hist (conv, ch, true, "reads", {}, { Rd (4, 1.0), Rd (60, 1.0), Rd (1, 0.5), Rd (900, 2.0), K (SETR, 0.3), K (BADREAD), K (BADRATIO) }, D > 3 ? 4 : 3, false, script);
			std::vector<long> bad = script; bad.insert (bad.begin (), -5);
			hist (conv, ch, true, "reads of a callback that fails at first", {}, { Rd (4, 1.0), Rd (60, 0.5), K (SETR, 0.3), K (RESET), K (BADREAD) }, 3, false, bad);
			hist (conv, ch, true, "reads of an empty stream", {}, { Rd (4, 1.0), K (SETR, 0.3), K (RESET) }, 3, false, { });
		}
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) { int parts = is_sinc (conv) ? 8 : 1; for (int k = 0; k < (conv == MED && ch > 2 && !T ? 2 : parts); k++) every_ratio (conv, ch, some_ratios (parts, 3 * k + ch)); }
	for (int conv : { LIN, ZOH }) for (int ch : wide_counts ()) wide (conv, ch);
	for (int ch : { 16, 17, 127, 128 }) for (int conv : { LIN, ZOH, FAST, MED }) hist (conv, ch, false, "many channels", {}, { P (100, 30, 1.0), P (20, 30, 0.6, 1), K (SETR, 2.0), K (BADREAD) }, 2, false);
}
