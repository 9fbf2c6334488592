// C10: the callback interface gives the same stream as the process interface.
// The callback's block sizes are environment choices: within one src_callback_read all choice sequences are enumerated by
// re-running the read from its saved pre-state; between reads, states (memory image + stream positions) are merged.
#include "stream.hpp"
#include "varmodel.hpp"
using namespace mc;

struct Ctl {
	int ch; const float *x; long pos, N; bool ended; void *user;
	std::vector<long> menu; std::vector<int> choice; size_t at; std::vector<int> arity; long maxcalls, limit = 200000;
	bool bounce; std::vector<float> buf[2]; int which; int style;
};
static Ctl K;
static long cbf (void *u, float **data)
{	if (u != K.user) fail ("the callback got user pointer %p, registered was %p", u, K.user);
	if (++K.maxcalls > K.limit) fail ("the callback is called over and over in one read");
	long rest = K.N - K.pos, n;
	// legal choices: distinct block sizes available
	long opts[16]; int k = 0;
	if (K.ended || rest == 0) opts[k++] = 0;
	else for (long m : K.menu) { long v = std::min (m, rest); bool dup = false; for (int j = 0; j < k; j++) if (opts[j] == v) dup = true; if (!dup) opts[k++] = v; }
	int c = 0;
	if (K.at < K.choice.size ()) c = K.choice[K.at];
	else { K.choice.push_back (0); }
	if (K.arity.size () <= K.at) K.arity.push_back (k); else K.arity[K.at] = k;
	K.at++;
	n = opts[c];
	tr ("  callback delivers %.0f frames (from frame %.0f of the stream)", n, K.pos);
	if (n == 0) { K.ended = true; if (K.style) *data = NULL; return 0; }
	if (K.bounce)
	{	// the previous block is invalid from now on
		K.which ^= 1; std::vector<float> &b = K.buf[K.which];
		std::fill (K.buf[K.which ^ 1].begin (), K.buf[K.which ^ 1].end (), NAN);
		b.assign (K.x + K.pos * K.ch, K.x + (K.pos + n) * K.ch);
		*data = b.data ();
	}
	else *data = (float *) K.x + K.pos * K.ch;
	K.pos += n;
	return n;
}
struct CbCfg { int conv, ch; double r; long N; std::vector<long> blocks, reads; int dev; long prefix = 0; double tol; };
struct CbExplorer {
	CbCfg c; SRC_STATE *s; std::vector<float> x, out; std::vector<float> ref; std::unordered_map<long, std::vector<float>> ends; std::vector<Image> img; std::unordered_map<uint64_t, int> vis; long trans = 0, finals = 0; bool capped = false;
	Image scratch;
	const std::vector<float> &end_ref (long n)
	{	auto it = ends.find (n); if (it != ends.end ()) return it->second;
		int tl = trace_len; scratch.save (); std::vector<float> v = oneshot (c.conv, c.ch, c.r, x.data (), n); scratch.restore (); trace_len = tl;
		return ends[n] = v;
	}
	void check (long o, long g, bool ended)
	{	const std::vector<float> &w = ended ? end_ref (K.pos) : ref; long have = (long) w.size () / c.ch;
		for (long k = 0; k < g * c.ch; k++)
		{	long f = o + k / c.ch;
			if (f >= have) { if (f - have >= 1) fail ("output frame %ld lies beyond the %ld frames src_process gives for %ld input frames", f, have, ended ? K.pos : K.N); continue; }
			double e = fabs ((double) out[k] - w[o * c.ch + k]);
			if (!(e <= c.tol)) fail ("output frame %ld channel %ld is %.9g, src_process gives %.9g (%s, %d channels, ratio %.17g, %ld frames delivered)", f, k % c.ch, out[k], w[o * c.ch + k], conv_name (c.conv), c.ch, c.r, K.pos);
		}
		cnt.evals += g * c.ch;
	}
	void dfs (int d, long pos, long o, bool ended, int dev)
	{	while ((int) img.size () <= d) img.emplace_back ();
		img[d].save (); int tl = trace_len;
		for (size_t ri = 0; ri < c.reads.size (); ri++)
		{	long m = c.reads[ri]; if (ri && dev <= 0) break;
			std::vector<int> prefix;
			for (;;)	// every choice sequence of the callback within this read
			{	if (trans++ > 3000000) { capped = true; return; }
				img[d].restore (); trace_len = tl;
				K.pos = pos; K.ended = ended; K.choice = prefix; K.at = 0; K.maxcalls = 0; K.arity.clear (); K.style = d & 1;
				tr ("src_callback_read (ratio=%.17g, frames=%.0f)", c.r, m);
				std::fill (out.begin (), out.begin () + m * c.ch, 7.5e7f);
				long g; { InCall ic; g = src_callback_read (s, c.r, m, out.data ()); }
				arena_check (); cnt.trans++;
				std::vector<int> used = K.choice, ar = K.arity; int devs = ri ? 1 : 0; for (int v : used) devs += v != 0;
				if (g < 0 || g > m) fail ("src_callback_read returned %ld for %ld frames", g, m);
				if (src_error (s)) fail ("src_callback_read failed with error %d (%s)", src_error (s), src_strerror (src_error (s)));
				if (g < m && !K.ended) fail ("src_callback_read returned %ld of %ld frames though the callback has not ended the input", g, m);
				for (long k = g * c.ch; k < m * c.ch; k++) if (out[k] != 7.5e7f) fail ("src_callback_read wrote past the %ld frames it returned", g);
				check (o, g, K.ended);
				if (K.ended && g == 0)
				{	long have = (long) end_ref (K.pos).size () / c.ch; finals++; cnt.traces++;
					if (labs (o - have) > 1 || (o != have && is_dyadic (c.r) && c.conv != ZOH)) fail ("the stream ended after %ld frames, src_process gives %ld for %ld input frames at ratio %.9g", o, have, K.pos, c.r);
					if (finals == 2) sample_trace ("complete stream read through the callback interface");
				}
				else
				{	uint64_t h = state_hash (mix (mix (K.pos, o + g), K.ended)); int left = c.dev >= 1000 ? 1000 : dev - devs;
					auto it = vis.find (h);
					if (it == vis.end () || it->second < left) { if (it == vis.end ()) { cnt.states++; cnt.nontriv += g > 0; } vis[h] = left; long p2 = K.pos; bool e2 = K.ended; dfs (d + 1, p2, o + g, e2, left); }
				}
				// next choice sequence
				int k = (int) used.size () - 1; int budget = c.dev >= 1000 ? 1000 : dev - (ri ? 1 : 0);
				for (; k >= 0; k--) { int others = 0; for (int j = 0; j < k; j++) others += used[j] != 0; if (used[k] + 1 < ar[k] && others + 1 <= budget) break; }
				if (k < 0) break;
				prefix.assign (used.begin (), used.begin () + k + 1); prefix[k]++;
			}
		}
		trace_len = tl;
	}
	void setup ()
	{	x = make_signal (c.ch, c.N + 4); c.tol = is_sinc (c.conv) ? 2e-5 : 2e-6;
		long mx = 2048; for (long m : c.reads) mx = std::max (mx, m); out.assign ((mx + 1) * c.ch, 0);
		{ // the stream continues beyond N for frames read before the end
			std::vector<float> lx = make_signal (c.ch, c.N); ref = oneshot (c.conv, c.ch, c.r, lx.data (), c.N); }
		arena_reset (); statics_restore (); trace_len = 0;
		K = Ctl (); K.ch = c.ch; K.x = x.data (); K.N = c.N; K.menu = c.blocks; K.user = &K.menu;
		int err = -1; tr ("src_callback_new (converter=%.0f, channels=%.0f)", c.conv, c.ch);
		s = src_callback_new (cbf, c.conv, c.ch, &err, K.user); if (!s || err) fail ("src_callback_new failed with %d", err);
	}
	void run ()
	{	setup (); long pos = 0, o = 0;
		if (c.prefix)
		{	K.menu = { 1009 }; K.pos = 0; K.N = c.prefix; long want = (long) ((c.prefix - (is_sinc (c.conv) ? half_span (c.conv, c.r) + 1100 : 4)) * c.r);
			while (o < want)
			{	K.choice.clear (); K.at = 0; K.maxcalls = 0; K.arity.clear (); long m = std::min (1777l, want - o);
				tr ("src_callback_read (ratio=%.17g, frames=%.0f)", c.r, m); long g; { InCall ic; g = src_callback_read (s, c.r, m, out.data ()); } check (o, g, false); o += g; if (g < m) fail ("short read of %ld of %ld frames in the middle of the stream", g, m);
			}
			K.menu = c.blocks; K.N = c.N; pos = K.pos;
		}
		dfs (0, pos, o, false, c.dev);
		if (capped) cnt.extra[0]++;
	}
};
static void explore (CbCfg c)
{	add (str ("%s ch=%d ratio=%.9g N=%ld prefix=%ld blocks up to %ld reads up to %ld dev=%d", conv_name (c.conv), c.ch, c.r, c.N, c.prefix, *std::max_element (c.blocks.begin (), c.blocks.end ()), *std::max_element (c.reads.begin (), c.reads.end ()), c.dev), [=] () { CbExplorer e; e.c = c; e.run (); });
}
// Streams whose blocks are invalidated as soon as the next one is asked for, with ratio steps between reads, against the
// position model; every combination of block size, read size and step pattern.
static void bounce (int conv, int ch, std::vector<double> rs, std::vector<long> blocks, std::vector<long> reads, int len, long prefix)
{	std::string rn; for (double r : rs) rn += str (" %.6g", r);
	add (str ("%s ch=%d invalidated blocks, ratio steps%s, %d reads after %ld frames", conv_name (conv), ch, rn.c_str (), len, prefix), [=] () {
		std::vector<float> x = make_signal (ch, 400000), out; long mx = 0; for (long m : reads) mx = std::max (mx, m); out.resize (std::max (mx, 5000l) * ch);
		K = Ctl (); K.ch = ch; K.x = x.data (); K.N = 399999; K.bounce = true; K.user = NULL;
		int err; trace_len = 0; tr ("src_callback_new (%.0f, %.0f)", conv, ch); SRC_STATE *s = src_callback_new (cbf, conv, ch, &err, NULL); if (!s) fail ("src_callback_new failed");
		Image fresh; fresh.save ();
		size_t per = reads.size () * rs.size (); long ncase = 1; for (int k = 0; k < len; k++) ncase *= per;
		for (long blk : blocks) for (long code = 0; code < ncase; code++)
		{	fresh.restore (); trace_len = 1; K.pos = 0; K.ended = false; K.menu = { blk }; K.style = 0;
			VarModel m; m.conv = conv; long t = code;
			auto read = [&] (long want, double r, bool quiet)
			{	tr ("src_set_ratio (%.17g)", r); if (src_set_ratio (s, r)) fail ("src_set_ratio failed"); m.last = r;
				K.choice.clear (); K.arity.clear (); K.at = 0; K.maxcalls = 0; int tl = trace_len;
				tr ("src_callback_read (ratio=%.17g, frames=%.0f)", r, want); long g; { InCall ic; g = src_callback_read (s, r, want, out.data ()); }
				arena_check (); cnt.trans++; cnt.states++; cnt.nontriv++;
				if (g != want) fail ("src_callback_read returned %ld of %ld frames in the middle of the stream (error %d)", g, want, src_error (s));
				if (quiet) trace_len = tl + 1;
				m.frames (g, want, r, [&] (long k, const VarModel::Pt &p)
				{	if (quiet && k % 97) return;
					for (int c = 0; c < ch; c++)
					{	float got = out[k * ch + c]; auto at = [&] (long j) { return j < 0 || j >= K.pos ? 0.0 : (double) x[j * ch + c]; };
						cnt.evals++;
						if (is_sinc (conv)) { double tol, w = sinc_at (conv, p.r, p.b, p.f, at, &tol); if (!(fabs (got - w) <= 4 * tol + 2e-6)) fail ("frame %ld of this read, channel %d is %.9g; the stream at input position %.9f gives %.9g", k, c, got, p.b + p.f, w); }
						else check_zl_value (conv, p, got, at, 3e-6, "this read", k, c);
					}
				});
			};
			for (long done = 0; done < prefix; done += 1500) read (1500, 1.0, true);
			for (int k = 0; k < len; k++) { size_t w = t % per; t /= per; read (reads[w % reads.size ()], rs[w / reads.size ()], false); }
			cnt.traces++;
			if (code == 1 && blk == blocks[0]) sample_trace ("reads with ratio steps");
		}
	});
}
// The wrong kind of converter; the refused call leaves no trace.
static void modes (int conv, int ch)
{	add (str ("%s ch=%d mode checks", conv_name (conv), ch), [=] () {
		std::vector<float> x = make_signal (ch, 3000), out (3000 * ch), o2 (3000 * ch);
		K = Ctl (); K.ch = ch; K.x = x.data (); K.N = 2000; K.menu = { 100 }; K.user = &K;
		for (int when = 0; when < 3; when++) for (int bad = 0; bad < 2; bad++)
		{	arena_reset (); statics_restore (); int err; K.pos = 0; K.ended = false; K.choice.clear (); K.at = 0; K.maxcalls = 0; trace_len = 0;
			SRC_STATE *s = src_callback_new (cbf, conv, ch, &err, K.user); std::vector<float> got;
			for (int k = 0; k < 3; k++)
			{	if (bad && k == when)
				{	std::fill (o2.begin (), o2.end (), 3.5f); long p = K.pos;
					R q = process (s, x.data (), 500, o2.data (), 500, 1.0, 0); cnt.trans++;
					if (q.err == 0) fail ("src_process was accepted on a callback converter");
					if (strstr (src_strerror (q.err) ? src_strerror (q.err) : "", "mode") == NULL) fail ("src_process on a callback converter gives error %d (%s)", q.err, src_strerror (q.err));
					if (K.pos != p) fail ("a refused src_process called the callback");
					for (float v : o2) if (v != 3.5f) fail ("a refused src_process wrote output");
				}
				K.choice.clear (); K.at = 0; K.arity.clear ();
				long g = src_callback_read (s, 1.0, 37, out.data ()); cnt.trans++; cnt.states++; cnt.nontriv++;
				if (g != 37) fail ("read returned %ld", g);
				got.insert (got.end (), out.begin (), out.begin () + 37 * ch);
			}
			static std::vector<float> want; if (!bad) want = got;
			cnt.evals++; cnt.traces++;
			if (got != want) fail ("a refused src_process changed the later results of a callback converter");
			// process converter
			SRC_STATE *p = make (conv, ch); std::fill (o2.begin (), o2.end (), 3.5f);
			R q = process_ok (p, x.data (), 300, out.data (), 37, 1.0, 0);
			std::vector<float> a; Image im; im.save (); q = process_ok (p, x.data () + q.used * ch, 300, out.data (), 37, 1.0, 0); a.assign (out.begin (), out.begin () + q.gen * ch); long g1 = q.gen;
			im.restore (); long g = src_callback_read (p, 1.0, 50, o2.data ());
			if (g) fail ("src_callback_read on a process converter returned %ld", g);
			if (!src_error (p) || strstr (src_strerror (src_error (p)), "mode") == NULL) fail ("src_callback_read on a process converter records error %d", src_error (p));
			for (float v : o2) if (v != 3.5f) fail ("a refused src_callback_read wrote output");
		}
	});
}
// Reads that need the callback tens of thousands of times, and blocks that last for tens of thousands of reads.
static void endurance (int conv, int ch, double r, long blk, long m, long total)
{	add (str ("%s ch=%d ratio=%.9g blocks of %ld, %ld frames in reads of %ld", conv_name (conv), ch, r, blk, total, m), [=] () {
		long N = (long) (total / r) + 400; std::vector<float> x = make_signal (ch, N), out ((m + 1) * ch), ref = oneshot (conv, ch, r, x.data (), N);
		arena_reset (); statics_restore (); trace_len = 0;
		K = Ctl (); K.ch = ch; K.x = x.data (); K.N = N; K.menu = { blk }; K.user = &K; K.limit = 20000000; int err;
		tr ("src_callback_new (%.0f, %.0f)", conv, ch); SRC_STATE *s = src_callback_new (cbf, conv, ch, &err, K.user); if (!s) fail ("src_callback_new failed");
		double tol = is_sinc (conv) ? 2e-5 : 2e-6; long o = 0, have = ref.size () / ch;
		for (long n = 0; ; n++)
		{	K.choice.clear (); K.arity.clear (); K.at = 0; K.maxcalls = 0; trace_len = 1; long p = K.pos; (void) p;
			long g; { InCall ic; g = src_callback_read (s, r, m, out.data ()); } trace_len = 1; tr ("read number %.0f (ratio=%.17g, frames=%.0f)", n, r, m);
			arena_check (); cnt.trans++; cnt.states++; cnt.nontriv += g > 0;
			if (src_error (s)) fail ("read %ld failed with error %d", n, src_error (s));
			if (g < 0 || g > m) fail ("src_callback_read returned %ld for %ld frames", g, m);
			if (g < m && !K.ended) fail ("read number %ld returned %ld of %ld frames though the callback has not ended the input (%ld frames delivered)", n, g, m, K.pos);
			for (long k = 0; k < g * ch; k++) { long f = o + k / ch; if (f >= have) { if (f > have) fail ("more than the %ld frames src_process gives", have); continue; } if (!(fabs (out[k] - ref[o * ch + k]) <= tol)) fail ("frame %ld channel %ld is %.9g, src_process gives %.9g", f, k % ch, out[k], ref[o * ch + k]); }
			cnt.evals += g * ch; o += g;
			if (g == 0) break;
		}
		if (labs (o - have) > 1) fail ("%ld frames in all, src_process gives %ld", o, have);
		cnt.traces++;
	});
}
// Every ratio of the sweep, and every block and read size.
// Non-finite samples may begin or end a frame or two earlier, because the position may be rounded differently.
static bool off (const std::vector<float> &ref, long j, int ch, float got, double tol)
{	float w = ref[j]; bool f = std::isfinite (w);
	if (f == (bool) std::isfinite (got)) return f && !(fabs ((double) got - w) <= tol);
	for (int k = -2; k <= 2; k++) { long q = j + k * ch; if (q >= 0 && q < (long) ref.size () && (bool) std::isfinite (ref[q]) != f) return false; }
	return true;
}
static void whole (int conv, int ch, double r, const std::vector<float> &x, long N, const std::vector<float> &ref, long blk, long m, std::vector<float> &out, SRC_STATE *s, Image &fresh, double scale = 1)
{	fresh.restore (); trace_len = 1; K = Ctl (); K.ch = ch; K.x = x.data (); K.N = N; K.menu = { blk }; K.user = &K; K.limit = 20000000; if ((long) out.size () < (m + 1) * ch) out.resize ((m + 1) * ch);
	double tol = (is_sinc (conv) ? 2e-5 : 2e-6) * scale + 3e-45; long o = 0, have = ref.size () / ch;
	for (long n = 0; ; n++)
	{	K.choice.clear (); K.arity.clear (); K.at = 0; K.maxcalls = 0; trace_len = 1; tr ("read number %.0f (ratio=%.17g, frames=%.0f) of a stream of %.0f frames", n, r, m, N);
		for (long k = 0; k < ch; k++) out[m * ch + k] = 7.5e7f;
		long g; { InCall ic; g = src_callback_read (s, r, m, out.data ()); } arena_check (); cnt.trans++; cnt.states++; cnt.nontriv += g > 0;
		if (src_error (s)) fail ("read %ld failed with error %d", n, src_error (s));
		if (g < 0 || g > m) fail ("src_callback_read returned %ld for %ld frames", g, m);
		if (out[m * ch] != 7.5e7f) fail ("src_callback_read wrote beyond the %ld frames asked for", m);
		if (g < m && !K.ended) fail ("read number %ld returned %ld of %ld frames though the callback has not ended the input (%ld frames delivered in blocks of %ld)", n, g, m, K.pos, blk);
		for (long k = 0; k < g * ch; k++) { long f = o + k / ch; if (f >= have) { if (f > have) fail ("more than the %ld frames src_process gives (%s, ratio %.17g, blocks of %ld, reads of %ld)", have, conv_name (conv), r, blk, m); continue; } if (off (ref, o * ch + k, ch, out[k], tol)) fail ("frame %ld channel %ld is %.9g, src_process gives %.9g (%s, %d channels, ratio %.17g, blocks of %ld, reads of %ld)", f, k % ch, out[k], ref[o * ch + k], conv_name (conv), ch, r, blk, m); }
		cnt.evals += g * ch; o += g; if (g == 0) break;
	}
	if (labs (o - have) > 1) fail ("%ld frames in all, src_process gives %ld (%s, ratio %.17g, blocks of %ld, reads of %ld)", o, have, conv_name (conv), r, blk, m);
	cnt.traces++;
}
static void every_ratio (int conv, int ch, std::vector<double> rs, std::vector<long> sizes, long N0)
{	add (str ("%s ch=%d %zu ratios %.9g.. with %zu block and read sizes", conv_name (conv), ch, rs.size (), rs[0], sizes.size ()), [=] () {
		std::vector<float> out;
		for (double r : rs)
		{	long N = N0 ? N0 : is_sinc (conv) ? (long) (2.1 * half_span (conv, r)) + 20 : r < 1 ? (long) (40 / r) : 61; if (r > 1 && !N0) N = std::min (N, (long) (is_sinc (conv) ? half_span (conv, 1) : 3) + (long) (3000 / r));
			arena_reset (); statics_restore (); trace_len = 0; std::vector<float> x = make_signal (ch, N), ref = oneshot (conv, ch, r, x.data (), N); arena_reset (); statics_restore (); trace_len = 0;
			int err; tr ("src_callback_new (%.0f, %.0f)", conv, ch); SRC_STATE *s = src_callback_new (cbf, conv, ch, &err, &K); if (!s) fail ("src_callback_new failed"); Image fresh; fresh.save (); long all = ref.size () / ch + 7, b = N / 6 + 1;
			if (sizes.empty ()) { whole (conv, ch, r, x, N, ref, b, std::max (1l, (long) (b * r)), out, s, fresh); whole (conv, ch, r, x, N, ref, N, all, out, s, fresh); whole (conv, ch, r, x, N, ref, r < 0.1 ? 7 : 1, std::max (1l, all / 5), out, s, fresh); whole (conv, ch, r, x, N, ref, N, r > 10 ? 7 : 1, out, s, fresh); }
			else for (long z : sizes) { whole (conv, ch, r, x, N, ref, z, all / 2, out, s, fresh); whole (conv, ch, r, x, N, ref, N / 3 + 1, z, out, s, fresh); whole (conv, ch, r, x, N, ref, z, std::max (1l, (long) (z * r)), out, s, fresh); }
		}
	});
}
static void values (int conv, int ch, double r)
{	add (str ("%s ch=%d ratio=%.9g particular values", conv_name (conv), ch, r), [=] () {
		std::vector<float> out;
		for (int kind = 0; kind < (is_sinc (conv) ? VALUE_KINDS - 1 : VALUE_KINDS); kind++)
		{	long N = is_sinc (conv) ? (long) (2.1 * half_span (conv, r)) + 20 : (long) (60 / std::min (r, 1.0)); double scale = 0;
			arena_reset (); statics_restore (); trace_len = 0; std::vector<float> x = odd_signal (kind, ch, N);
			if (is_sinc (conv) && kind >= FINITE_KINDS) { std::vector<float> y = odd_signal (1, ch, N); for (int c = 0; c < ch; c++) y[(N / 2) * ch + c] = kind == 19 ? NAN : c & 1 ? INFINITY : -INFINITY; x = y; }
			for (float v : x) if (std::isfinite (v)) scale = std::max (scale, (double) fabsf (v));
			std::vector<float> ref = oneshot (conv, ch, r, x.data (), N); arena_reset (); statics_restore (); trace_len = 0;
			int err; tr ("src_callback_new (%.0f, %.0f)", conv, ch); SRC_STATE *s = src_callback_new (cbf, conv, ch, &err, &K); if (!s) fail ("src_callback_new failed"); Image fresh; fresh.save (); long all = ref.size () / ch + 7;
			for (long b : { 1l, N / 6 + 1, N }) for (long m : { 1l, std::max (1l, (long) (b * r)), all / 3, all }) whole (conv, ch, r, x, N, ref, b, m, out, s, fresh, scale);
		}
	});
}
void setup_tasks ()
{	property_id = "C10"; bool T = thorough ();
	rule = "A case is one src_callback_read with one sequence of block sizes chosen by the callback within it, in one reachable state; every returned sample is compared with what src_process gives for the same stream; non-trivial when frames were returned.";
	explanation = "Explicit-state search with the callback as the environment: all block-size sequences within a read and all read sizes, states merged between reads, ends of input possible at every callback. Bounded variants limit the number of deviations from a default block and read size; further tasks invalidate each block when the next one is asked for, and step the ratio between reads.";
	extra_names = { { "configurations_cut_off_by_budget", 0 } };
	const int ALL = 1000;
	for (int conv : { LIN, ZOH }) for (int ch : { 1, 2, 3, 5 }) for (double r : { 1.0, 2.0, 0.5, 1.5, 0.75, 1.0 / 3, 0.1, 7.3, 0.987654321, 1 / 7.3 })
	{	long N = r < 0.3 ? 30 : r > 5 ? 6 : 11; if (T) N = N * 3 / 2;
		explore ({ conv, ch, r, N, { 1, 2, 3, 5, 0 }, { 1, 2, 3, 8, 50 }, ALL });
	}
	for (int conv : { LIN, ZOH }) for (int ch : { 1, 2 }) { explore ({ conv, ch, 1.0 / 256, 900, { 300, 1, 255, 256, 257, 0 }, { 1, 2, 9 }, 3 }); explore ({ conv, ch, 256.0, 3, { 1, 2, 0 }, { 100, 1, 255, 256, 257, 3000 }, 3 }); }
	for (int conv : { LIN, ZOH, FAST }) for (int ch : { 4, 6, 7, 8, 16, 128 }) explore ({ conv, ch, 0.8, is_sinc (conv) ? 70l : 20l, { 9, 30, 1, 0 }, { 10, 1, 33, 200 }, 2 });
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 6, 7 }) for (double r : { 1.0, 0.5, 1.7, 3.0, 0.9 })
	{	if (ch > 2 && !T && conv == MED) continue;
		long N = conv == FAST ? 90 : 160, k = N / 8; explore ({ conv, ch, r, N, { k, 1, 3 * k, 0, 1000 }, { (long) (k * r) + 1, 1, 1000, (long) (3 * k * r) }, T ? 4 : 3 });
	}
	for (int conv : { FAST, MED }) for (int ch : { 1, 2 }) { explore ({ conv, ch, 1.0 / 256, conv == FAST ? 15000l : 33000l, { 3000, 100000, 1, 0 }, { 5, 1, 100 }, 2 }); explore ({ conv, ch, 256.0, 50, { 40, 1, 1000, 0 }, { 1000, 1, 257, 20000 }, 2 }); }
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (double r : { 1.0, 0.4 })
	{	long H = lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1), span = (long) half_span (conv, r);
		if (!T && conv == MED && (ch > 2 || r < 1)) continue;
		for (long base : { 3 * H, 4 * H, 7 * H }) for (int d : { -1, 0, 1 })
		{	if (!T && (ch > 1) && d) continue;
			explore ({ conv, ch, r, base + d * span + 8 * span, { span, 1, 4 * span, 0 }, { (long) (span * r), 1, 5 * span }, 2, base + d * span });
		}
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (double r : { 1.0, 1.3, 0.11 })
	{	if (is_sinc (conv) && (conv == MED || ch > 2) && !T && r != 1.3) continue;
		long total = T ? (r < 1 ? 200000 : 1100000) : r < 1 ? 9000 : 80000; endurance (conv, ch, r, 1, total / 2 + 1, total); endurance (conv, ch, r, 50000, 1, total);
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 })
	{	int parts = 6, take = T || !is_sinc (conv) || ch == 1 || (conv == FAST && ch <= 4) ? parts : 2;
		for (int k = 0; k < take; k++) every_ratio (conv, ch, some_ratios (parts, k * 5 + ch), {}, 0);
		if (T || ch <= 3) for (double r : { 1.0, 0.91875, 1.7 }) if (T || conv != MED || (ch == 1 && r > 1)) { every_ratio (conv, ch, { r }, sweep_sizes (2500, T ? 1100 : 200), 2600); every_ratio (conv, ch, { r }, sweep_sizes (70000, 0), 70000); }
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6, 7 })
	{	bounce (conv, ch, { 1.0, 0.4, 2.5 }, { 1, 3, 10, 64, 1000 }, { 1, 7, 40 }, T ? 4 : ch <= 2 ? 3 : 2, 0);
		bounce (conv, ch, { 1.0, 1.0 / 256, 256.0 }, { 300, 5000 }, { 1, 9 }, conv == MED ? 2 : 3, 0);
		if (is_sinc (conv)) for (long blk : { 501l, 5000l }) bounce (conv, ch, { 1.0, 0.3 }, { blk }, { 3, 900 }, 3, 4 * lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1));
		modes (conv, ch); for (double r : { 1.0, 0.91875, 1.7, 0.4, 3.0, 0.6 }) if (T || conv != MED || ch < 2) values (conv, ch, r);
	}
}
