// C05: a clone continues exactly like the original and independently of it.
#include "ops.hpp"
#include "wide.hpp"
using namespace mc;
enum { DELETE_IT = 100 };
static void run_hist (int conv, int ch, bool cb, std::vector<Op> prefix, std::vector<Op> menu, int depth, std::vector<std::vector<Op>> conts, std::vector<long> script, int interleave_nodes)
{	Env e; e.init (ch); e.script.blocks = script; int err;
	tr (cb ? "src_callback_new (converter=%.0f, channels=%.0f)" : "src_new (converter=%.0f, channels=%.0f)", conv, ch);
	SRC_STATE *s = cb ? src_callback_new (env_callback, conv, ch, &err, &e) : make (conv, ch, true);
	if (!s) fail ("cannot create the converter");
	Src src0; for (auto &o : prefix) apply (e, s, src0, o, NULL);
	std::vector<Image> img; Image node, cloned; std::unordered_map<uint64_t, int> vis; std::unordered_set<uint64_t> done; long nodes = 0;
	auto seq = [&] (SRC_STATE *q, Src src, const std::vector<Op> &p, const char *who) { Log l; for (auto &o : p) apply (e, q, src, o, &l, who); return l; };
	auto check_node = [&] (Src src)
	{	node.save (); int tl = trace_len; nodes++;
		std::vector<Log> want;
		for (auto &p : conts) { node.restore (); want.push_back (seq (s, src, p, "s")); }
		node.restore (); trace_len = tl; tr ("src_clone ()");
		err = -5; SRC_STATE *c; { InCall g; c = src_clone (s, &err); }
		if (!c || err) fail ("src_clone failed with %d", err);
		if (c == s) fail ("src_clone returned the original");
		arena_check ();
		if (src_get_channels (c) != ch) fail ("the clone has %d channels", src_get_channels (c));
		if (src_error (c) != src_error (s)) fail ("src_error of the clone is %d, of the original %d", src_error (c), src_error (s));
		cloned.save (); int tl2 = trace_len;
		size_t nc = conts.size ();
		for (size_t i = 0; i < nc; i++) for (size_t j = 0; j < nc; j++)
		{	if (nodes > interleave_nodes && j != (i + 1) % nc) continue;
			// all of i on the clone, then j on the original; and the other way round; each followed by deleting one and repeating nothing
			for (int order = 0; order < 2; order++)
			{	cloned.restore (); trace_len = tl2; cnt.traces++;
				if (order == 0) { compare (want[i], seq (c, src, conts[i], "c"), "clone first"); compare (want[j], seq (s, src, conts[j], "s"), "original after clone was used"); }
				else { compare (want[j], seq (s, src, conts[j], "s"), "original first"); compare (want[i], seq (c, src, conts[i], "c"), "clone after original was used"); }
			}
			// one deleted before the other continues
			cloned.restore (); trace_len = tl2; tr ("src_delete (original)"); { InCall g; src_delete (s); } compare (want[i], seq (c, src, conts[i], "c"), "clone after the original was deleted"); { InCall g; src_delete (c); } arena_check ();
			cloned.restore (); trace_len = tl2; tr ("src_delete (clone)"); { InCall g; src_delete (c); } compare (want[j], seq (s, src, conts[j], "s"), "original after the clone was deleted"); arena_check ();
			if (nodes <= interleave_nodes)
			{	// all interleavings of the two sequences
				size_t a = conts[i].size (), b = conts[j].size ();
				for (unsigned mask = 0; mask < (1u << (a + b)); mask++)
				{	if ((size_t) __builtin_popcount (mask) != a) continue;
					cloned.restore (); trace_len = tl2; Log lc, ls; Src sc = src, so = src; size_t x = 0, y = 0;
					for (size_t k = 0; k < a + b; k++) { if (mask >> k & 1) apply (e, c, sc, conts[i][x++], &lc, "c"); else apply (e, s, so, conts[j][y++], &ls, "s"); }
					compare (want[i], lc, "clone, interleaved with the original"); compare (want[j], ls, "original, interleaved with the clone"); cnt.traces++;
				}
			}
			// a clone of the clone
			if (j == i) { cloned.restore (); trace_len = tl2; int e2; SRC_STATE *cc; { InCall g; cc = src_clone (c, &e2); } if (!cc) fail ("cloning the clone failed"); { InCall g; src_delete (c); } compare (want[i], seq (cc, src, conts[i], "c"), "clone of a clone"); }
		}
		if (nodes == 2) sample_trace ("history, clone, continuations");
		node.restore (); trace_len = tl;
	};
	std::function<void(int, Src)> dfs = [&] (int d, Src src)
	{	while ((int) img.size () <= d) img.emplace_back ();
		img[d].save (); int tl = trace_len;
		if (done.insert (state_hash (mix (src.pos, mix (src.blk, src.ended)))).second) check_node (src);
		if (d < depth)
			for (auto &o : menu)
			{	img[d].restore (); trace_len = tl; Src q = src;
				apply (e, s, q, o, NULL);
				uint64_t k = state_hash (mix (q.pos, mix (q.blk, q.ended)));
				auto it = vis.find (k);
				if (it == vis.end () || it->second > d + 1) { if (it == vis.end ()) { cnt.states++; cnt.nontriv++; } vis[k] = d + 1; dfs (d + 1, q); }
			}
		trace_len = tl;
	};
	dfs (0, src0);
}
static void hist (int conv, int ch, bool cb, const char *nm, std::vector<Op> prefix, std::vector<Op> menu, int depth, bool wrap, std::vector<long> script = {})
{	add (str ("%s ch=%d %s %s, depth %d", conv_name (conv), ch, cb ? "callback" : "process", nm, depth), [=] () {
		bool sc = is_sinc (conv); long a = sc ? 90 : 4; std::vector<std::vector<Op>> c;
		if (!cb)
		{	c = { { P (a, 30, 1.0), P (3, 20, 1.0), P (5, 200, 1.0, 1) }, { P (1, 5, 0.6), K (RESET), P (a, 40, 1.7) }, { K (SETR, 2.0), P (a, 50, 0.8), P (0, 5, 0.8) }, { P (0, 30, 1.0, 1), P (0, 50, 1.0, 1), K (ERRQ) } };
			if (wrap) c[0] = { P (300, 700, 1.0), P (2000, 3000, 1.0), P (5, 3000, 1.0, 1) };
		}
		else c = { { Rd (5, 1.0), Rd (40, 1.0), Rd (400, 1.0) }, { Rd (1, 0.4), K (RESET), Rd (30, 0.4) }, { K (SETR, 2.0), Rd (20, 1.0), Rd (300, 1.0) } };
		run_hist (conv, ch, cb, prefix, menu, depth, c, script, ch <= 3 ? (sc ? 12 : 40) : 2);
	});
}
// Cloned over and over: every clone like the first.  Chains: each clone is made from the previous one, which is deleted.
static void many_clones (int conv, int ch, bool cb)
{	add (str ("%s ch=%d %s cloned over and over", conv_name (conv), ch, cb ? "callback" : "process"), [=] () {
		Env e; e.init (ch, 4000); e.script.blocks = { 100, 1, 50, 60, 0 }; int err; bool sc = is_sinc (conv);
		tr (cb ? "src_callback_new (converter=%.0f, channels=%.0f)" : "src_new (converter=%.0f, channels=%.0f)", conv, ch);
		SRC_STATE *s = cb ? src_callback_new (env_callback, conv, ch, &err, &e) : make (conv, ch, true); Src src; Log want;
		std::vector<Op> pre = cb ? std::vector<Op> { Rd (20, 0.9) } : std::vector<Op> { P (90, 20, 0.9) }, cont = cb ? std::vector<Op> { Rd (30, 1.2), Rd (300, 1.2) } : std::vector<Op> { P (60, 50, 1.2), P (3, 100, 1.2, 1) };
		for (auto &o : pre) apply (e, s, src, o, NULL);
		{ Image im; im.save (); Src q = src; for (auto &o : cont) apply (e, s, q, o, &want); im.restore (); }
		auto clone = [&] (SRC_STATE *f) { SRC_STATE *c; tr ("src_clone ()"); { InCall g; c = src_clone (f, &err); } if (!c || err) fail ("src_clone failed with %d", err); return c; };
		auto probe = [&] (SRC_STATE *c, const char *w) { Src q = src; Log l; for (auto &o : cont) apply (e, c, q, o, &l, "c"); compare (want, l, w); };
		repeat (sc ? 20000 : 70000, [&] (long) { SRC_STATE *c = clone (s); probe (c, "a clone, after many others"); InCall g; src_delete (c); });
		long n = sc ? 300 : 20000; arena_reuse = true; int tl = trace_len;
		for (long k = 0; k < n; k++) { trace_len = tl; tr ("(clone number %.0f in a chain, each made from the previous one)", k); SRC_STATE *c = clone (s); { InCall g; src_delete (s); } s = c; cnt.states++; cnt.nontriv++; if (k % 997 == 0 || k == n - 1) { Image im; im.save (); probe (s, "a clone at the end of a chain of clones"); im.restore (); } }
		probe (s, "the last clone of a chain"); { InCall g; src_delete (s); } if (arena->nlive) fail ("%lu blocks are left", (unsigned long) arena->nlive);
		cnt.traces++;
	});
}
// A clone made in the middle of a stream at every ratio of the sweep.
static void every_ratio (int conv, int ch, std::vector<double> rs)
{	add (str ("%s ch=%d clones at %zu ratios %.9g..", conv_name (conv), ch, rs.size (), rs[0]), [=] () {
		Env e; e.init (ch);
		for (double r : rs)
		{	long a = (long) (is_sinc (conv) ? 1.3 * half_span (conv, r) : 2.0 + 2 / r) + 5;
			std::vector<std::vector<Op>> hs = { { P (a, 20, r) }, { P (a, 5, r, 1) }, { P (30, 20, 1.0), P (a, 20, r) }, { P (30, 20, 1.0), K (SETR, r) } };
			std::vector<std::vector<Op>> cs = { { P (a, 20, r), P (a, 300, r, 1) }, { P (150, 30, 1.0), P (9, 300, 0.7, 1) }, { P (a, 9, r * 0.99 < 1.0 / 256 ? r : r * 0.99) } };
			for (auto &h : hs)
			{	arena_reset (); statics_restore (); trace_len = 0; SRC_STATE *s = make (conv, ch); Src q; for (auto &o : h) apply (e, s, q, o, NULL);
				Image before, after; before.save (); std::vector<Log> want; int tl = trace_len; cnt.states++; cnt.nontriv++;
				for (auto &c : cs) { before.restore (); Src z = q; Log l; for (auto &o : c) apply (e, s, z, o, &l); want.push_back (l); }
				before.restore (); trace_len = tl; int err = -3; SRC_STATE *c; tr ("src_clone"); { InCall g; c = src_clone (s, &err); } if (!c || err) fail ("src_clone failed with %d", err);
				after.save (); tl = trace_len;
				for (size_t k = 0; k < cs.size (); k++) for (int way = 0; way < 3; way++)
				{	after.restore (); trace_len = tl; Src z = q, w = q; Log l, m;
					if (way == 0) { for (auto &o : cs[k]) apply (e, c, z, o, &l, "c"); for (auto &o : cs[k]) apply (e, s, w, o, &m); }
					else if (way == 1) for (auto &o : cs[k]) { apply (e, s, w, o, &m); apply (e, c, z, o, &l, "c"); }
					else { tr ("src_delete (original)"); { InCall g; src_delete (s); } for (auto &o : cs[k]) apply (e, c, z, o, &l, "c"); }
					compare (want[k], l, "the clone, against the original without cloning"); if (way < 2) compare (want[k], m, "the original after cloning, against the original without cloning"); cnt.traces++; }
			}
		}
	});
}
static void wide (int conv, int ch)
{	add (str ("%s ch=%d very many channels", conv_name (conv), ch), [=] () {
		std::vector<float> x, y; std::vector<std::vector<float>> a, b, d; Log l; wide_stream (ch, 1, x); wide_stream (ch, -3, y); std::vector<float> o (40l * ch + 1);
		for (size_t k = 0; k <= wide_calls ().size (); k++)
		{	auto before = [&] () { trace_len = 0; SRC_STATE *s = make (conv, ch); long at = 0; for (size_t j = 0; j < k; j++) { WideCall c = wide_calls ()[j]; R q = process_ok (s, y.data () + at * ch, c.n, o.data (), c.m, c.r, c.eof); at += q.used; } return s; };
			SRC_STATE *s = before (); wide_run (s, ch, x.data (), a, l); src_delete (s);
			s = before (); int err = 0; SRC_STATE *c; tr ("src_clone"); { InCall g; c = src_clone (s, &err); } if (!c) fail ("src_clone failed with %d", err);
			wide_run (s, ch, x.data (), b, l); wide_same (a, b, ch, "the original after src_clone"); if (k & 1) { src_delete (s); s = NULL; } wide_run (c, ch, x.data (), d, l); wide_same (a, d, ch, "the clone"); if (s) src_delete (s); src_delete (c); cnt.traces++; }
	});
}
void setup_tasks ()
{	property_id = "C05"; bool T = thorough ();
	rule = "A state is a distinct memory image reached by a history; in each one the converter is cloned and all continuations on original and clone, in both orders, interleaved, and with either deleted, are compared bit for bit with the continuation without cloning.";
	explanation = "Explicit-state search over histories with a clone at every state; differential oracle: the original's own continuation from the saved image.";
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 })
	{	bool sc = is_sinc (conv); 
		int D = (sc ? 3 : 4) + (T ? 1 : 0); if (conv == MED && !T && ch > 1) D = 2;
		long a = sc ? 120 : 4, b = sc ? 37 : 1;
		hist (conv, ch, false, "from the start", {}, { P (a, 30, 1.0), P (b, 7, 0.5), P (a, 1, 2.0), P (a, 100, 0.7, 1), P (0, 3, 1.0), K (SETR, 0.3), K (BADRATIO), K (BADREAD), K (RESET) }, D, false);
		hist (conv, ch, false, "extreme ratios", {}, { P (sc ? 6000 : 300, 3, 1.0 / 256), P (a, 300, 256.0), P (a, 9, 1.0), K (SETR, 1.0 / 256) }, 2, false);
		if (sc)
		{	long H = lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1);
			for (long d : { -60, -20, 5 }) hist (conv, ch, false, d < -40 ? "before the wrap" : d < 0 ? "at the wrap" : "after the wrap", { P (2 * H, 2 * H + 9, 1.0), P (2 * H + d, 2 * H + 9, 1.0) }, { P (30, 40, 1.0), P (100, 30, 0.5), P (20, 100, 1.0, 1) }, 1 + T, true);
		}
		if (ch <= 4)
		{	std::vector<long> script = sc ? std::vector<long> { 100, 1, 50, 200, 3, 0 } : std::vector<long> { 3, 1, 10, 2, 30, 0 };
			hist (conv, ch, true, "reads", {}, { Rd (4, 1.0), Rd (60, 1.0), Rd (1, 0.5), Rd (900, 2.0), K (SETR, 0.3), K (BADREAD), K (BADRATIO) }, D > 3 ? 4 : D, false, script);
		}
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) { int parts = is_sinc (conv) ? 8 : 1; for (int k = 0; k < (conv == MED && ch > 2 && !T ? 2 : parts); k++) every_ratio (conv, ch, some_ratios (parts, 3 * k + ch)); }
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (bool cb : { false, true }) if (conv != MED || ch == 1) many_clones (conv, ch, cb);
	for (int conv : { LIN, ZOH }) for (int ch : wide_counts ()) wide (conv, ch);
	for (int ch : { 16, 17, 127, 128 }) for (int conv : { LIN, ZOH, FAST, MED }) hist (conv, ch, false, "many channels", {}, { P (100, 30, 1.0), P (20, 30, 0.6, 1) }, 2, false);
}
