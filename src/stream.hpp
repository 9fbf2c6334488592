// Exhaustive exploration of all ways of cutting a finite stream into src_process calls.
#pragma once
#include "ref.hpp"

#ifndef MC_ASAN
struct StreamCfg {
	int conv, ch; double ratio; long N;
	std::vector<long> in_menu, out_menu;	// frame counts; a value beyond the rest means "all the rest"
	const float *x;			// N * ch samples
	const std::vector<float> *ref;	// expected output, interleaved
	double tol = 4e-6;
	const std::vector<float> *tolv = NULL;	// tolerance per sample, instead of tol
	long count_slack = 0;		// allowed difference of the total number of frames
	bool check_total = true;
	bool null_eof = true;		// also use a NULL data pointer for an empty end_of_input call
	int dev = 1000;			// calls that may differ from the default call (first block size, first capacity); 1000: all
	long budget = 2000000;		// transitions; exceeding it is reported in the evidence, not hidden
};
struct StreamExplorer {
	StreamCfg c; SRC_STATE *s; std::unordered_map<uint64_t, int> vis; std::vector<mc::Image> img; std::vector<float> out; long trans = 0; bool capped = false;
	double maxerr = 0; long finals = 0;
	void check_out (long o, long gen)
	{	long have = (long) c.ref->size () / c.ch;
		for (long k = 0; k < gen * c.ch; k++)
		{	long j = o * c.ch + k;
			if (o + k / c.ch >= have)
			{	if (o + k / c.ch - have >= c.count_slack) mc::fail ("output frame %ld lies beyond the %ld frames of the reference conversion", o + k / c.ch, have);
				continue;
			}
			double e = fabs ((double) out[k] - (*c.ref)[j]);
			if (!(e <= (c.tolv ? (*c.tolv)[j] : c.tol))) mc::fail ("output frame %ld channel %ld is %.9g, the reference conversion gives %.9g (%s, %d channels, ratio %.17g, %ld frames)", o + k / c.ch, k % c.ch, out[k], (*c.ref)[j], conv_name (c.conv), c.ch, c.ratio, c.N);
			if (e > maxerr) maxerr = e;
		}
		mc::cnt.evals += gen * c.ch;
	}
	void dfs (int depth, long i, long o, int eof, int dev)
	{	if ((int) img.size () <= depth) img.emplace_back ();
		img[depth].save ();
		int tl = mc::trace_len; bool first = true;
		long rest = c.N - i;
		// choices: (block, end_of_input, capacity)
		for (int style = eof ? 1 : 0; style < (c.null_eof && rest == 0 ? 3 : 2); style++)
		for (size_t a = 0; a < (style ? 1 : c.in_menu.size ()); a++)
		{	long n = style ? rest : std::min (c.in_menu[a], rest);
			if (!style) { bool dup = false; for (size_t b = 0; b < a; b++) if (std::min (c.in_menu[b], rest) == n) dup = true; if (dup) continue; }
			for (size_t b = 0; b < c.out_menu.size (); b++)
			{	long m = c.out_menu[b];
				bool deflt = style == (eof || rest == 0 ? 1 : 0) && (style || a == 0) && b == 0;
				if (!deflt && dev <= 0) continue;
				if (trans >= c.budget) { capped = true; return; }
				if (!first) img[depth].restore ();
				first = false; mc::trace_len = tl;
				std::fill (out.begin (), out.begin () + m * c.ch, 7.5e7f);
				mc::R r = mc::process_ok (s, style == 2 ? NULL : c.x + i * c.ch, n, out.data (), m, c.ratio, style ? 1 : 0);
				mc::arena_check ();
				trans++; mc::cnt.trans++;
				check_out (o, r.gen);
				long i2 = i + r.used, o2 = o + r.gen;
				if (style && m > 0 && r.gen == 0 && i2 == c.N)
				{	// finished
					finals++; mc::cnt.traces++;
					long have = (long) c.ref->size () / c.ch;
					if (c.check_total && labs (o2 - have) > c.count_slack) mc::fail ("the stream ended after %ld output frames, the reference conversion has %ld (%s, %d channels, ratio %.17g, %ld input frames)", o2, have, conv_name (c.conv), c.ch, c.ratio, c.N);
					if (finals == 1) mc::sample_trace ("one complete cutting of the stream");
					continue;
				}
				if (style && m > 0 && r.gen == 0 && r.used == 0)
					mc::fail ("input is left over (%ld of %ld frames consumed) but end_of_input calls produce nothing more", i2, c.N);
				uint64_t h = mc::state_hash (mc::mix (mc::mix (i2, o2), style ? 1 : 0));
				int left = c.dev >= 1000 ? 1000 : dev - (deflt ? 0 : 1);
				auto it = vis.find (h);
				if (it == vis.end () || it->second < left)
				{	if (it == vis.end ()) { mc::cnt.states++; mc::cnt.nontriv += o2 > o || i2 > i; }
					vis[h] = left;
					dfs (depth + 1, i2, o2, style ? 1 : 0, left);
				}
			}
		}
		mc::trace_len = tl;
	}
	// s must be at stream position (i, o)
	void run (SRC_STATE *st, long i = 0, long o = 0)
	{	s = st; long mx = 1; for (long m : c.out_menu) mx = std::max (mx, m);
		out.assign (mx * c.ch + 1, 0);
		dfs (0, i, o, 0, c.dev);
		if (capped) mc::cnt.extra[0]++;
	}
};
#endif

// Converts the whole stream in one call.
inline std::vector<float> oneshot (int conv, int ch, double ratio, const float *x, long N, long *used = NULL)
{	long cap = (long) (N * ratio) + 64;
	std::vector<float> o (cap * ch + 1);
	SRC_STATE *s = mc::make (conv, ch, true);
	mc::R r = mc::process_ok (s, x, N, o.data (), cap, ratio, 1, true);
	src_delete (s);
	if (used) *used = r.used;
	o.resize (r.gen * ch);
	return o;
}
// Hands over a whole stream in blocks of `blk` with room for `cap` frames per call, end_of_input with the last block or later,
// until nothing more comes.  sink (first frame, frames, data).
template <class S> long convert_cut (SRC_STATE *s, int ch, double r, const float *x, long N, long blk, long cap, bool late, std::vector<float> &o, S sink)
{	if ((long) o.size () < cap * ch + 1) o.resize (cap * ch + 1);
	long i = 0, total = 0, idle = 0, tl = mc::trace_len;
	for (long g = 0; idle < 3; g++)
	{	long n = std::min (blk, N - i); bool eof = late ? idle > 0 && n == 0 : i + n == N;
		mc::trace_len = tl; if (g) mc::tr ("(after %.0f calls with blocks of %.0f and room for %.0f)", g, blk, cap);
		mc::R q = mc::process_ok (s, x + i * ch, n, o.data (), cap, r, eof); mc::cnt.trans++; mc::cnt.states++; if (q.gen || q.used) mc::cnt.nontriv++;
		sink (total, q.gen, o.data ());
		if (total + q.gen > (long) ((N + 30000) * r) + 100) mc::fail ("%ld output frames for %ld input frames, and no end (ratio %.17g)", total + q.gen, N, r);
		i += q.used; total += q.gen; idle = q.gen || q.used ? 0 : idle + 1;
	}
	if (i != N) mc::fail ("only %ld of %ld frames were consumed with blocks of %ld and room for %ld frames (ratio %.17g)", i, N, blk, cap, r);
	mc::cnt.traces++; mc::trace_len = tl;
	return total;
}
