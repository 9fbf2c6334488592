// Exhaustive exploration of call sequences with changing ratios against the position model.
#pragma once
#include "stream.hpp"
#include "varmodel.hpp"

struct VarExplorer {
	int conv, ch; long N; std::vector<long> in, out; std::vector<double> ratios; bool steps = true, eofs = false; int depth; long budget = 3000000;
	bool counts = true;		// zoh/linear: also check input_frames_used and the number of frames
	std::vector<float> x; SRC_STATE *s; std::vector<mc::Image> img; std::unordered_map<uint64_t, int> vis; std::vector<float> o; long trans = 0; double tol = 2e-6;
	long total_out = 0;
	void verify (VarModel &m, long i, long n, long cap, double r, const mc::R &q, bool eof)
	{	long avail = i + n;
		if (!is_sinc (conv) && counts)
		{	ZLExpect e = zl_gen (m, n, avail, cap, r);
			if (q.gen < e.gen_min || q.gen > e.gen_max) mc::fail ("%ld frames produced where input and capacity suffice for %ld (to %ld) frames; next position %.9f, input ends at %ld", q.gen, e.gen_min, e.gen_max, m.b + m.f, avail);
		}
		m.note_call (r);
		double lo = std::min (m.last, r), hi = std::max (m.last, r);
		m.frames (q.gen, cap, r, [&] (long k, const VarModel::Pt &p)
		{	for (int c = 0; c < ch; c++)
			{	float got = o[k * ch + c];
				if (is_sinc (conv))
				{	double t, w = sinc_at (conv, p.r, p.b, p.f, [&] (long j) { return j < 0 || j >= avail ? 0.0 : (double) x[j * ch + c]; }, &t);
					t = t * 4 + 2e-6;
					if (!(fabs (got - w) <= t)) mc::fail ("output frame %ld of this call, channel %d is %.9g; the filter at input position %.9f and ratio %.9g gives %.9g (ratio in force before the call %.9g)", k, c, got, p.b + p.f, p.r, w, lo == r ? hi : lo);
				}
				else check_zl_value (conv, p, got, [&] (long j) { return (double) x[j * ch + c]; }, tol, "this call", k, c);
			}
		});
		mc::cnt.evals += q.gen * ch;
		if (!is_sinc (conv) && counts)
		{	long want = std::min (avail, std::max (m.b, i));
			if (n <= 0) want = i;
			bool ok = i + q.used == want;
			if (!ok && near_int (m.f)) { long b2 = m.f < 0.5 ? m.b - 1 : m.b + 1; ok = i + q.used == std::min (avail, std::max (b2, i)); }
			if (!ok) mc::fail ("input_frames_used=%ld of %ld: stream position %ld, the next output position is %.9f, so %ld frames are no longer needed", q.used, n, i, m.b + m.f, want - i);
		}
	}
	void dfs (int d, long i, VarModel m, bool eof)
	{	if (d == depth) { mc::cnt.traces++; if (mc::cnt.traces == 1) mc::sample_trace ("call sequence checked against the position model"); return; }
		while ((int) img.size () <= d) img.emplace_back ();
		img[d].save (); int tl = mc::trace_len;
		for (double r : ratios) for (size_t a = 0; a < in.size () + (eofs ? 1 : 0); a++) for (long cap : out) for (int step = 0; step < (steps && d > 0 && ratios.size () > 1 ? 2 : 1); step++)
		{	bool e2 = a == in.size ();
			if (eof && !e2) continue;
			long n = e2 ? N - i : std::min (in[a], N - i);
			if (step && r == m.last) continue;
			if (!e2 && a > 0 && N - i < in[a] && N - i <= in[a-1]) continue;
			if (trans++ > budget) { mc::cnt.extra[0]++; return; }
			img[d].restore (); mc::trace_len = tl;
			VarModel m2 = m;
			if (step) { mc::tr ("src_set_ratio (%.17g)", r); int e = src_set_ratio (s, r); if (e) mc::fail ("src_set_ratio returned %d", e); m2.last = r; }
			mc::R q = mc::process_ok (s, x.data () + i * ch, n, o.data (), cap, r, e2); mc::cnt.trans++;
			mc::arena_check ();
			verify (m2, i, n, cap, r, q, e2);
			uint64_t h = mc::state_hash (mc::mix (mc::mix (i + q.used, m2.b), mc::mix (llround (m2.f * 1e9), mc::mix (llround (m2.last * 1e9), e2))));
			auto it = vis.find (h);
			if (it == vis.end () || it->second > d + 1)
			{	if (it == vis.end ()) { mc::cnt.states++; if (q.gen || q.used) mc::cnt.nontriv++; }
				vis[h] = d + 1;
				dfs (d + 1, i + q.used, m2, e2);
			}
		}
		mc::trace_len = tl;
	}
	void setup () { long mx = 1; for (long v : out) mx = std::max (mx, v); o.assign (mx * ch + 1, 0); if (x.empty ()) x = make_signal (ch, N); }
	void run () { setup (); s = mc::make (conv, ch); VarModel m; m.conv = conv; dfs (0, 0, m, false); }
};
