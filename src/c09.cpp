// C09: every call returns and makes progress.
#include "ops.hpp"
using namespace mc;

static long span_frames (int conv, double r) { return is_sinc (conv) ? (long) half_span (conv, r) + 4 : 2; }

// ------------------------------------------------------------------ process interface
struct PCfg { int conv, ch; std::vector<double> rs; std::vector<long> in, out; int depth; bool steps; long prefix; double r0; };
struct Prog {
	PCfg c; SRC_STATE *s; std::vector<float> x, o; long room, bufframes; std::vector<Image> img; Image tmp; std::unordered_map<uint64_t, int> vis; long drains = 0;
	double rmin, rmax;
	// Ends the stream with n frames left and calls until nothing comes; bounded.
	void drain (long pos, double r, long n, long cap)
	{	tmp.save (); int tl = trace_len;
		bool heavy = is_sinc (c.conv) && rmax > 16 && !(drains < 2 && c.prefix == 0);	// full drain at a high ratio: only twice per task
		if (heavy) { r = std::min (r, 1.0); tr ("src_set_ratio (%.17g)", r); src_set_ratio (s, r); cap = 1000; }
		// a falling ratio uses the ratio in force first, so the largest ratio of the menu bounds the production
		long total = 0, calls = 0, maxf = (long) ((n + bufframes + 2 * span_frames (c.conv, rmin)) * std::max (rmax, r)) + 64, i = 0;
		while (true)
		{	R q = process_ok (s, x.data () + (pos + i) * c.ch, n - i, o.data (), cap, r, 1, calls > 4); cnt.trans++;
			arena_check ();
			calls++; i += q.used; total += q.gen;
			if (!q.used && !q.gen) break;
			if (total > maxf) fail ("after end_of_input with %ld frames left, %ld output frames have come in %ld calls and it has not ended (ratio %g)", n, total, calls, r);
		}
		if (i != n) fail ("after end_of_input %ld of %ld frames are never consumed: a call with room for %ld frames did nothing (ratio %.9g)", n - i, n, cap, r);
		for (int k = 0; k < 3; k++)
		{	R q = process_ok (s, k == 1 ? NULL : x.data () + pos * c.ch, 0, o.data (), cap + k, r, 1); cnt.trans++;
			if (q.used || q.gen) fail ("the stream had ended (a call gave nothing), and a later call gives %ld frames", q.gen);
		}
		cnt.evals++; cnt.traces++; drains++;
		if (drains == 2) sample_trace ("history, end of input, drained");
		trace_len = tl; tmp.restore ();
	}
	// Submits `len` frames in blocks of n with capacity m until all is consumed: a caller always gets through.
	void through (long pos, double r, long n, long m, long len)
	{	tmp.save (); int tl = trace_len; long i = 0, guard = 0, lim = (long) (len * std::max (rmax, r) / m + len) + 4 * bufframes + 1000;
		if (is_sinc (c.conv) && rmax > 16) { tr ("src_set_ratio (%.17g)", r = std::min (r, 1.0)); src_set_ratio (s, r); }
		else if (rmax * bufframes / m > 4e5) { trace_len = tl; return; }
		lim += (long) (rmax * bufframes / m);
		while (i < len)
		{	long k = std::min (n, len - i); R q = process_ok (s, x.data () + (pos + i) * c.ch, k, o.data (), m, r, 0, guard > 3); cnt.trans++;
			if (!q.used && !q.gen) fail ("a call with %ld input frames and room for %ld output frames consumed and produced nothing (ratio %.9g, %ld calls after the last shown)", k, m, r, guard);
			i += q.used;
			if (++guard > lim) fail ("%ld frames have not been consumed after %ld calls of %ld frames with room for %ld", len, guard, n, m);
		}
		cnt.evals++; cnt.traces++;
		trace_len = tl; tmp.restore ();
	}
	void dfs (int d, long pos, double last)
	{	while ((int) img.size () <= d) img.emplace_back ();
		if (pos + 2 * 14000 > room) fail ("internal: stream too short");
		drain (pos, last ? last : c.rs[0], 0, 1000); if (d <= 2) drain (pos, c.rs[d % c.rs.size ()], 37, 500);
		if (d > 0 && d <= 2) { through (pos, c.rs[(d + 1) % c.rs.size ()], 1, 3, 20); through (pos, c.rs[d % c.rs.size ()], 4000, 700, 9000); }
		if (d == c.depth) return;
		img[d].save (); int tl = trace_len;
		for (double r : c.rs) for (long n : c.in) for (long m : c.out) for (int st = 0; st < (c.steps && d > 0 ? 2 : 1); st++)
		{	if (st && r == last) continue;
			img[d].restore (); trace_len = tl;
			if (st) { tr ("src_set_ratio (%.17g)", r); src_set_ratio (s, r); }
			R q = process_ok (s, x.data () + pos * c.ch, n, o.data (), m, r, 0); cnt.trans++; cnt.evals++;
			arena_check ();
			if (n > 0 && m > 0 && !q.used && !q.gen) fail ("a call with %ld input frames and room for %ld output frames consumed and produced nothing (ratio %.9g)", n, m, r);
			uint64_t h = state_hash (pos + q.used);
			auto it = vis.find (h);
			if (it == vis.end () || it->second > d + 1) { if (it == vis.end ()) { cnt.states++; cnt.nontriv += q.used || q.gen; } vis[h] = d + 1; dfs (d + 1, pos + q.used, r); }
		}
		img[d].restore (); trace_len = tl;
	}
	void run ()
	{	rmin = 1e9; rmax = 0; for (double r : c.rs) { rmin = std::min (rmin, r); rmax = std::max (rmax, r); }
		bufframes = is_sinc (c.conv) ? 4 * (lrint ((double) filter_of (c.conv).len / filter_of (c.conv).inc * 256 + 1)) + 16 : 300;
		room = c.prefix + 200000; x = make_signal (c.ch, room); long mx = 70000; for (long m : c.out) mx = std::max (mx, m); o.assign (mx * c.ch + 1, 0);
		s = make (c.conv, c.ch); long i = 0;
		for (long g = 0; i < c.prefix && g < 1000000; g++) { R q = process_ok (s, x.data () + i * c.ch, std::min (997l, c.prefix - i), o.data (), (long) (1000 * c.r0) + 2, c.r0, 0); i += q.used; if (!q.used && !q.gen) fail ("no progress in the prefix"); }
		dfs (0, i, c.prefix ? c.r0 : 0);
	}
};
static void prog (PCfg c)
{	std::string rn; for (double r : c.rs) rn += str (" %.6g", r);
	add (str ("%s ch=%d prefix=%ld@%g ratios%s depth=%d blocks %ld.. caps %ld..", conv_name (c.conv), c.ch, c.prefix, c.r0, rn.c_str (), c.depth, c.in[0], c.out[0]), [=] () { Prog p; p.c = c; p.run (); });
}

// ------------------------------------------------------------------ callback interface
// The callback's behaviour is part of the choice: a script of block sizes, with ends of input anywhere in between.
struct CB { std::vector<long> script; size_t at; long tail; long calls, limit; long delivered; const float *x; int ch; bool unset; };
static CB cb;
static long cb_func (void *, float **data)
{	cb.calls++;
	if (cb.calls > cb.limit) fail ("src_callback_read has called the callback %ld times in one call without returning", cb.calls);
	long n = cb.at < cb.script.size () ? cb.script[cb.at] : cb.tail; cb.at++;
	if (n == 0) { if (!cb.unset) *data = NULL; return 0; }
	*data = (float *) cb.x; cb.delivered += n;
	return n;
}
static void callback_task (int conv, int ch, std::vector<double> rs, std::vector<long> blocks, int len, std::vector<std::vector<long>> reads, bool fulltail)
{	std::string rn; for (double r : rs) rn += str (" %.6g", r);
	add (str ("%s ch=%d callback scripts of %d blocks up to %ld, ratios%s", conv_name (conv), ch, len, blocks.back (), rn.c_str ()), [=] () {
		static std::vector<float> x, o; x = make_signal (ch, 70000); o.assign (70000 * (size_t) ch, 0);
		int err; tr ("src_callback_new (%.0f, %.0f)", conv, ch);
		SRC_STATE *s = src_callback_new (cb_func, conv, ch, &err, NULL); if (!s) fail ("src_callback_new failed");
		Image fresh; fresh.save (); std::unordered_set<uint64_t> seen;
		long B = is_sinc (conv) ? 4 * lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1) + 64 : 300, ncase = 1;
		for (int k = 0; k < len; k++) ncase *= blocks.size ();
		for (long code = 0; code < ncase; code++) for (long tail : (fulltail ? std::vector<long> { 0, 7 } : std::vector<long> { 0 })) for (auto &rd : reads) for (size_t ri = 0; ri < rs.size (); ri++)
		{	fresh.restore (); trace_len = 1;
			cb.script.clear (); long t = code; for (int k = 0; k < len; k++) { cb.script.push_back (blocks[t % blocks.size ()]); t /= blocks.size (); }
			cb.at = 0; cb.tail = tail; cb.delivered = 0; cb.x = x.data (); cb.ch = ch; cb.unset = code & 1;
			for (int k = 0; k < len; k++) tr ("callback block %.0f will deliver %.0f frames", k, cb.script[k]);
			tr ("then every further callback delivers %.0f", tail);
			long zeros = 0, total = 0, reads_done = 0, guard = 0; bool ok = true;
			for (size_t k = 0; ; k++)
			{	bool in_list = k < rd.size (); long m = in_list ? rd[k] : rd.back (); double r = rs[in_list ? (ri + k) % rs.size () : (ri + rd.size () - 1) % rs.size ()];
				if (!in_list && tail) break;
				if (!in_list && cb.delivered > 1000 && r > 4) { r = 1; m = std::max (m, 3000l); }
				size_t at0 = cb.at; double rlo = rs[0], rhi = rs[0]; for (double q : rs) rlo = std::min (rlo, q), rhi = std::max (rhi, q);
				cb.calls = 0; cb.limit = (long) (m / rlo + 1 / rlo) + B + 8;
				if (k < 12) tr ("src_callback_read (ratio=%.17g, frames=%.0f)", r, m);
				long g; { InCall ic; g = src_callback_read (s, r, m, o.data ()); }
				arena_check (); cnt.trans++; cnt.states++; reads_done++;
				if (g) cnt.nontriv++;
				if (g < 0 || g > m) fail ("src_callback_read returned %ld for %ld frames", g, m);
				int e = src_error (s); if (e && !src_strerror (e)) fail ("src_error gives unknown code %d", e);
				total += g;
				if (e) { ok = false; break; }
				if (!in_list)
				{	if (g == 0 && cb.at >= cb.script.size ()) { if (++zeros >= 4) break; } else { if (zeros && at0 >= cb.script.size ()) fail ("src_callback_read returned 0 after the end and then %ld frames, though the callback kept reporting the end", g); zeros = 0; }
					if (++guard, total > (cb.delivered + B) * (rhi + 1) + 1000) fail ("the reads do not come to an end: %ld frames returned, %ld delivered, %ld reads", total, cb.delivered, reads_done);
				}
			}
			cnt.evals++; cnt.traces++;
			if (!ok)
			{	// an error is only legitimate when data came after an end
				bool ended = false, after = false; for (size_t k = 0; k < cb.at; k++) { long n = k < cb.script.size () ? cb.script[k] : tail; if (n == 0) ended = true; else if (ended) after = true; }
				if (!after) fail ("src_callback_read failed with error %d (%s) though the callback behaved", src_error (s), src_strerror (src_error (s)));
			}
			if (code == ncase / 2 && ri == 0) sample_trace ("one callback script read to the end");
		}
	});
}
// Calls made over and over: after the end (process and callback), and tens of thousands of the smallest calls.
static void on_and_on (int conv, int ch)
{	add (str ("%s ch=%d calls on and on", conv_name (conv), ch), [=] () {
		bool sc = is_sinc (conv); long N = sc ? 400 : 12, total; static std::vector<float> x, o; x = make_signal (ch, 200000); o.assign (3000 * ch, 0);
		for (double r : { 1.0, 0.6, 2.3 })
		{	trace_len = 0; SRC_STATE *s = make (conv, ch); long i = 0; total = 0;
			for (long k = 0; k < 20000; k++) { R q = process_ok (s, x.data () + i * ch, N - i, o.data (), 7, r, 1, k > 4); i += q.used; total += q.gen; if (!q.gen && !q.used) break; }
			if (i != N) fail ("%ld of %ld frames consumed at the end", i, N);
			tr ("the stream has ended; further calls:");
			repeat (70000, [&] (long k) { R q = process_ok (s, k & 1 ? NULL : x.data () + i * ch, 0, o.data (), 1 + k % 900, r, 1); cnt.trans++; if (q.gen || q.used) fail ("the stream had ended (a call gave nothing), and a later call gives %ld frames", q.gen); });
			for (long k = 0; k < 70000; k++) { R q = process_ok (s, k & 1 ? NULL : x.data () + i * ch, 0, o.data (), 1 + k % 900, r, 1, k > 3); cnt.trans++; cnt.evals++; if (q.gen || q.used) fail ("the stream had ended (a call gave nothing), and a later call (%ld calls after the end) gives %ld frames", k, q.gen); }
			src_delete (s); cnt.traces++;
			// one frame at a time, room for one frame
			trace_len = 0; s = make (conv, ch); long calls = sc ? 30000 / ch : 150000, idle = 0; i = 0; tr ("calls with one frame of input and room for one, many times");
			for (long k = 0; k < calls; k++)
			{	double rr = k % 50000 < 25000 ? r : k & 1 ? r * 1.01 : r; R q = process_ok (s, x.data () + i * ch, 1, o.data (), 1, rr, 0, k > 3); cnt.trans++; cnt.evals++; i += q.used;
				if (!q.used && !q.gen) { if (++idle) fail ("a call with one input frame and room for one consumed and produced nothing (call %ld, ratio %.9g)", k, rr); } }
			src_delete (s); cnt.traces++; cnt.states++; cnt.nontriv++;
			// reads after the end
			trace_len = 0; int err; cb.script = { N, N / 2 }; cb.at = 0; cb.tail = 0; cb.delivered = 0; cb.x = x.data (); cb.ch = ch; cb.unset = false; cb.limit = 100000; cb.calls = 0;
			tr ("src_callback_new (%.0f, %.0f)", conv, ch); { InCall g; s = src_callback_new (cb_func, conv, ch, &err, NULL); } if (!s) fail ("src_callback_new failed");
			long zeros = 0; for (long k = 0; zeros < 3 && k < 20000; k++) { cb.calls = 0; long g; { InCall ic; g = src_callback_read (s, r, 50, o.data ()); } if (src_error (s)) fail ("a read failed with error %d", src_error (s)); zeros = g ? 0 : zeros + 1; }
			if (zeros < 3) fail ("the reads do not come to an end");
			tr ("the callback stream has ended; further reads:");
			for (long k = 0; k < 70000; k++) { cb.calls = 0; cb.limit = 4; long g; { InCall ic; g = src_callback_read (s, r, 1 + k % 900, o.data ()); } cnt.trans++; cnt.evals++; int e = src_error (s); if (g || e) fail ("a read after the end (%ld reads after it) returned %ld frames, error %d, though the callback keeps reporting the end", k, g, e); }
			src_delete (s); cnt.traces++; cnt.states++; cnt.nontriv++; arena_check ();
		}
		sample_trace ("calls on and on");
	});
}
// Every ratio of the sweep, as a constant ratio and as a target or start of ramps, with small and large blocks.
static void every_ratio (int conv, int ch, std::vector<double> rs)
{	add (str ("%s ch=%d progress at %zu ratios %.9g..", conv_name (conv), ch, rs.size (), rs[0]), [=] () {
		long B = is_sinc (conv) ? 4 * (lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1)) + 16 : 300; std::vector<float> x = make_signal (ch, 2 * B + 60000), o (70000 * ch);
		for (double r : rs) for (double r2 : { r, 1.0, 0.3, 3.0 }) for (int how = 0; how < 4; how++)
		{	if (how > 1 && r2 != r && r2 != 1.0) continue;
			arena_reset (); statics_restore (); trace_len = 0; SRC_STATE *s = make (conv, ch); long i = 0, span = (long) (is_sinc (conv) ? half_span (conv, std::min (r, r2)) : 2 / std::min (r, r2)) + 3;
			long n = how == 0 ? 1 : how == 1 ? span : how == 2 ? 64 : 5 * span, m = how == 0 ? 1 : how == 1 ? std::max (1l, (long) (span * r)) : how == 2 ? 5 : 60000, calls = how == 0 ? 60 : how == 1 ? 6 : how == 2 ? 30 : 3; if (r > 20 || r2 > 20) m = std::min (m, 3000l);
			for (long k = 0; k < calls && i + n < (long) x.size () / ch; k++)
			{	double rr = k < calls / 2 ? r : r2; if (how == 1 && k == calls / 2 && rr != r) { tr ("src_set_ratio (%.17g)", rr); src_set_ratio (s, rr); }
				R q = process_ok (s, x.data () + i * ch, n, o.data (), m, rr, 0, k > 8); cnt.trans++; cnt.states++; cnt.evals++; cnt.nontriv += q.gen > 0; i += q.used;
				if (!q.used && !q.gen) fail ("a call with %ld input frames and room for %ld output frames consumed and produced nothing (ratio %.9g)", n, m, rr); }
			if (r2 < r) { tr ("src_set_ratio (%.17g)", r2); src_set_ratio (s, r2); }
			long total = 0, left = 17, maxf = (long) ((B + 2 * span + 17) * std::max (r, r2)) + 64;
			for (long k = 0; ; k++) { R q = process_ok (s, x.data () + i * ch, left, o.data (), 60000, r2, 1, k > 4); cnt.trans++; total += q.gen; left -= q.used; i += q.used; if (!q.gen && !q.used) break; if (total > maxf) fail ("after end_of_input %ld output frames have come and it has not ended (ratio %g)", total, r2); }
			if (left) fail ("after end_of_input %ld frames are never consumed (ratio %.9g)", left, r2);
			for (int k = 0; k < 3; k++) { R q = process_ok (s, k & 1 ? NULL : x.data (), 0, o.data (), 100 + k, r2, 1); if (q.gen || q.used) fail ("the stream had ended (a call gave nothing), and a later call gives %ld frames", q.gen); }
			cnt.traces++;
		}
	});
}
// One frame at a time (in, out, or both), at ratios all over the legal range: no ratio may be one at which small calls are not worth the trouble.
static void small_calls (int conv, int ch, std::vector<double> rs)
{	add (str ("%s ch=%d calls of a frame at %zu ratios %.9g..", conv_name (conv), ch, rs.size (), rs[0]), [=] () {
		std::vector<float> x = make_signal (ch, 300), o (400 * ch);
		for (double r : rs) for (int how = 0; how < 3; how++)
		{	arena_reset (); statics_restore (); trace_len = 0; SRC_STATE *s = make (conv, ch); long i = 0;
			for (long k = 0; k < 12; k++)
			{	long n = how == 1 ? 3 : 1, m = how == 2 ? (r > 1 ? 300 : 9) : 1;
				R q = process_ok (s, x.data () + i * ch, n, o.data (), m, r, 0, k > 8); cnt.trans++; cnt.states++; cnt.evals++; cnt.nontriv += q.gen > 0; i += q.used;
				if (!q.used && !q.gen) fail ("a call with %ld input frames and room for %ld output frames consumed and produced nothing (ratio %.9g)", n, m, r); }
			cnt.traces++;
		}
	});
}
void setup_tasks ()
{	property_id = "C09"; bool T = thorough ();
	rule = "A case is one call in one reachable state (progress), one drain after end_of_input from a reachable state, or one callback script read with one sequence of read sizes; non-trivial when frames moved.";
	explanation = "Explicit-state search over histories of block sizes, capacities, ratio ramps and steps on the real converters, also from every fill level around the wrap of the sinc buffer; in each state every call of the menu must make progress, a block of input must be consumed in bounded calls, and after end_of_input the stream must end in bounded calls. Callback behaviours (block sizes, ends, data after the end) are enumerated as environment choices and the callback counts its invocations. A watchdog on CPU time catches calls that do not return.";
	std::vector<double> norm = { 1.0, 0.4, 2.5 }, ext = { 1.0, 1.0 / 256, 256.0 }, low = { 1.0 / 256, 1.0 / 255.3, 0.01 }, high = { 256.0, 100.0, 3.0 }, jit = { 0.999, 1.001 };
	for (int conv : { LIN, ZOH }) for (int ch : { 1, 2, 3, 5 })
	{	int d = T ? 5 : 4;
		prog ({ conv, ch, norm, { 1, 2, 9, 0 }, { 1, 4, 11 }, d, true, 0, 1 });
		prog ({ conv, ch, ext, { 1, 2, 300 }, { 1, 7 }, d, true, 0, 1 });
		prog ({ conv, ch, low, { 1, 255, 256, 300 }, { 1, 3 }, d, true, 0, 1 });
		prog ({ conv, ch, high, { 1, 2 }, { 1, 3, 255, 256, 257 }, d - 1, true, 0, 1 });
		prog ({ conv, ch, jit, { 1, 3, 7 }, { 1, 3, 10 }, d + 1, true, 0, 1 });
		prog ({ conv, ch, norm, { 1, 2, 9 }, { 1, 4, 11 }, d - 1, true, 3000, 0.7 });
	}
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 })
	{	int d = (conv == FAST ? 3 : 2) + (T ? 1 : 0); if (conv == FAST && ch == 1 ) d = T ? 4 : 3;
		long H = lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1);
		if (ch > 2 && !T) d = 2;
		prog ({ conv, ch, norm, { 1, 30, 200 }, { 1, 40 }, d, true, 0, 1 });
		prog ({ conv, ch, ext, { 1, 6000 }, { 1, 300 }, d, true, 0, 1 });
		prog ({ conv, ch, low, { 1, 5000, 12000 }, { 1, 7 }, 2, true, 0, 1 });
		if (ch <= 2) prog ({ conv, ch, high, { 1, 100 }, { 1, 300 }, d, true, 0, 1 });
		// around the wrap of the buffer
		long sp = (long) half_span (conv, 1);
		for (long base : { 2 * H, 3 * H, 4 * H, 7 * H }) for (int k = -2; k <= 2; k++) for (auto &rs : { norm, ext })
		{	if (!T && (ch > 2 || conv == MED) && (k & 1)) continue;
			if (!T && conv == MED && ch > 1 && base != 4 * H) continue;
			prog ({ conv, ch, rs, { 1, 5, 3000 }, { 1, 60 }, 2, false, base + k * sp, k & 1 ? 1.0 : 2.0 });
			if (T || ch == 1) prog ({ conv, ch, rs, { 1, 20000 }, { 1, 60 }, 2, true, base + k * sp + 1, 0.5 });
		}
	}
	for (int ch : { 16, 128 }) prog ({ FAST, ch, norm, { 1, 200 }, { 1, 40 }, 2, true, 0, 1 });
	std::vector<std::vector<long>> rd = { { 1, 5, 40 }, { 200, 3, 17 } };
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 })
	{	if (ch > 2 && conv == MED && !T) continue;
		int L = T ? 5 : is_sinc (conv) ? 4 : 5; if (ch > 2 && !T) L = 3;
		for (double r : { 1.0, 0.3, 3.0 }) callback_task (conv, ch, { r }, { 0, 1, 30, 400 }, L, rd, true);
		callback_task (conv, ch, { 1.0, 0.3, 3.0 }, { 0, 1, 50, 300 }, L, rd, true);
		callback_task (conv, ch, { 256.0 }, { 0, 1, 3 }, 3, { { 700, 1, 3000 } }, true);
		callback_task (conv, ch, { 1.0 / 256 }, { 0, 1, 300, 20000 }, 3, { { 1, 5, 3 } }, true);
		callback_task (conv, ch, { 1.0 / 256, 1.0, 256.0 }, { 0, 1, 300, 20000 }, 3, { { 1, 5, 300 }, { 7, 7, 7 } }, true);
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) if (conv != MED || ch < 3 || T) on_and_on (conv, ch);
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) { int parts = is_sinc (conv) ? 12 : 2; for (int k = 0; k < (conv == MED && ch > 1 && !T ? 2 : conv == FAST && ch > 2 && !T ? 4 : parts); k++) every_ratio (conv, ch, some_ratios (parts, 5 * k + ch)); }
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7 }) for (int k = 0; k < (is_sinc (conv) ? 4 : 1); k++) small_calls (conv, ch, grid_ratios (T ? 2000 : 400, k / 4.0));
	if (T) for (int ch : { 1, 2 }) callback_task (FAST, ch, { 1.0, 0.5 }, { 0, 1, 5, 31, 150 }, 5, { { 1, 2, 3, 4, 5, 6 }, { 50, 1, 50 } }, true);
}
