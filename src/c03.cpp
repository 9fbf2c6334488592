// C03: channels of an interleaved stream are converted independently.
#include "stream.hpp"
#include "varmodel.hpp"
#include "wide.hpp"
using namespace mc;

static void constant (int conv, int ch, double r, long P, long N, std::vector<long> in, std::vector<long> out, int dev)
{	add (str ("%s ch=%d ratio=%.9g prefix=%ld N=%ld", conv_name (conv), ch, r, P, N), [=] () {
		std::vector<float> x = make_signal (ch, N), m (N + 1), ref; long frames = LONG_MAX;
		std::vector<std::vector<float>> mono;
		for (int c = 0; c < ch; c++)
		{	for (long i = 0; i < N; i++) m[i] = x[i * ch + c];
			mono.push_back (oneshot (conv, 1, r, m.data (), N));
			frames = std::min (frames, (long) mono.back ().size ());
			arena_reset (); statics_restore ();
		}
		ref.resize (frames * ch);
		for (long k = 0; k < frames; k++) for (int c = 0; c < ch; c++) ref[k * ch + c] = mono[c][k];
		StreamExplorer e; e.c.conv = conv; e.c.ch = ch; e.c.ratio = r; e.c.N = N; e.c.in_menu = in; e.c.out_menu = out; e.c.x = x.data (); e.c.ref = &ref;
		e.c.count_slack = is_sinc (conv) ? 1 : !is_dyadic (r) || (conv == ZOH && N * r == floor (N * r)) ? 1 : 0;
		e.c.tol = is_sinc (conv) ? 2e-5 : 2e-6; e.c.dev = dev;
		SRC_STATE *s = make (conv, ch);
		long i = 0, o = 0, blk = 3000, cap = (long) (blk * r) + 8;
		e.out.assign ((cap + 1) * ch, 0);
		for (int g = 0; i < P && g < 10000; g++)
		{	R q = process_ok (s, x.data () + i * ch, std::min (blk, P - i), e.out.data (), cap, r, 0);
			e.check_out (o, q.gen); cnt.trans++; i += q.used; o += q.gen;
			if (!q.used && !q.gen) break;
		}
		e.run (s, i, o);
	});
}
// Lock step of one c-channel converter and c mono converters through sequences of calls with changing ratio.
struct Lock {
	int conv, ch, depth; std::vector<double> ratios; std::vector<long> in, out; long N;
	std::vector<float> x; std::vector<std::vector<float>> mono; SRC_STATE *s; std::vector<SRC_STATE *> ms; std::vector<Image> img; std::unordered_set<uint64_t> vis;
	std::vector<float> om, o1;
	void dfs (int d, long i)
	{	if (d == depth) { cnt.traces++; if (cnt.traces == 1) sample_trace ("lock step of the channels"); return; }
		while ((int) img.size () <= d) img.emplace_back ();
		img[d].save (); int tl = trace_len;
		for (double r : ratios) for (long n0 : in) for (long m : out) for (int step = 0; step < 2; step++)
		{	if (step && d == 0) continue;
			img[d].restore (); trace_len = tl;
			long n = std::min (n0, N - i);
			if (step) { tr ("src_set_ratio (%.17g)", r); src_set_ratio (s, r); for (auto q : ms) src_set_ratio (q, r); }
			R a = process_ok (s, x.data () + i * ch, n, om.data (), m, r, 0); cnt.trans++;
			bool same = true;
			for (int c = 0; c < ch; c++)
			{	R b = process_ok (ms[c], mono[c].data () + i, n, o1.data (), m, r, 0, true);
				long g = std::min (a.gen, b.gen);
				if (labs (a.gen - b.gen) > 1 || (is_sinc (conv) == 0 && (labs (a.used - b.used) > 1))) fail ("the %d-channel stream gives %ld frames for this call, channel %d alone gives %ld", ch, a.gen, c, b.gen);
				for (long k = 0; k < g; k++)
					if (!(fabs (om[k * ch + c] - o1[k]) <= (is_sinc (conv) ? 2e-5 : 2e-6))) fail ("frame %ld of this call, channel %d of %d: %.9g, converting the channel alone gives %.9g", k, c, ch, om[k * ch + c], o1[k]);
				cnt.evals += g;
				if (a.gen != b.gen || a.used != b.used) same = false;
			}
			arena_check ();
			if (!same) continue;
			uint64_t h = state_hash (mix (i + a.used, depth - d));
			if (vis.insert (h).second) { cnt.states++; cnt.nontriv++; dfs (d + 1, i + a.used); }
		}
		trace_len = tl;
	}
};
static void ramps (int conv, int ch, std::vector<double> ratios, std::vector<long> in, std::vector<long> out, int depth)
{	add (str ("%s ch=%d changing ratio between %g and %g", conv_name (conv), ch, ratios[0], ratios.back ()), [=] () {
		Lock l; l.conv = conv; l.ch = ch; l.depth = depth; l.ratios = ratios; l.in = in; l.out = out;
		l.N = in.back () * (depth + 1); l.x = make_signal (ch, l.N);
		l.mono.resize (ch);
		for (int c = 0; c < ch; c++) { for (long i = 0; i < l.N; i++) l.mono[c].push_back (l.x[i * ch + c]); }
		l.s = make (conv, ch); for (int c = 0; c < ch; c++) l.ms.push_back (make (conv, 1, true));
		long mx = *std::max_element (out.begin (), out.end ()); l.om.resize (mx * ch + 1); l.o1.resize (mx + 1);
		l.dfs (0, 0);
	});
}
// Streams in which channels are silent, equal to channel 0, or constant: every subset of the channels (of up to 7; selected
// subsets of more), for the whole stream and changing from frame to frame.
static void patterns (int conv, int ch, double r)
{	add (str ("%s ch=%d ratio=%.9g silent and equal channels", conv_name (conv), ch, r), [=] () {
		long N = is_sinc (conv) ? (long) (2.2 * half_span (conv, r)) : 40; double tol = is_sinc (conv) ? 2e-5 : 2e-6;
		std::vector<float> base = make_signal (ch, N), m (N), x (N * ch);
		std::vector<std::vector<bool>> masks;
		if (ch <= 7) for (unsigned b = 0; b < 1u << ch; b++) { std::vector<bool> v (ch); for (int c = 0; c < ch; c++) v[c] = b >> c & 1; masks.push_back (v); }
		else
		{	for (int c = 0; c < ch; c += ch > 32 ? 5 : 1) for (int inv = 0; inv < 2; inv++) { std::vector<bool> v (ch, inv); v[c] = !inv; masks.push_back (v); }
			for (int c : { 1, 4, ch / 2, ch - 4, ch - 1 }) for (int inv = 0; inv < 2; inv++) { std::vector<bool> v (ch, inv); for (int k = 0; k < c; k++) v[k] = !inv; masks.push_back (v); }
			for (int inv = 0; inv < 2; inv++) { std::vector<bool> v (ch, inv); v[0] = v[ch - 1] = !inv; masks.push_back (v); }
			for (int per : { 2, 4, 8 }) for (int inv = 0; inv < 2; inv++) { std::vector<bool> v (ch); for (int k = 0; k < ch; k++) v[k] = (k / (per / 2) & 1) ^ inv; masks.push_back (v); }
		}
		// kind 0: silent channels; 1: channels equal to channel 0; 2: constant channels; way 0: for the whole stream; 1: a new subset every frame; 2: every 9 frames
		for (int kind = 0; kind < 3; kind++) for (int way = 0; way < 3; way++) for (size_t first = 0; first < masks.size (); first++)
		{	if (way && first != 0 && first != masks.size () / 2 && first != masks.size () - 1) continue;
			for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++)
			{	bool on = masks[way == 0 ? first : (first + i / (way == 1 ? 1 : 9)) % masks.size ()][c]; float v = base[i * ch + c];
				x[i * ch + c] = !on ? v : kind == 0 ? 0.0f : kind == 1 ? base[i * ch] : 0.5f; }
			arena_reset (); statics_restore (); trace_len = 0; tr ("one conversion, pattern %.0f of subset %.0f, changing %.0f", kind, first, way);
			std::vector<float> all = oneshot (conv, ch, r, x.data (), N); cnt.trans++; cnt.states++; cnt.nontriv++; cnt.traces++;
			for (int c = 0; c < ch; c++)
			{	if (ch > 32 && c > 4 && c < ch - 4 && (c + first) % 7) continue;
				for (long i = 0; i < N; i++) m[i] = x[i * ch + c];
				std::vector<float> one = oneshot (conv, 1, r, m.data (), N); long g = std::min ((long) all.size () / ch, (long) one.size ());
				if (labs ((long) all.size () / ch - (long) one.size ()) > 1) fail ("%ld frames from %d channels, %ld from channel %d alone", (long) all.size () / ch, ch, (long) one.size (), c);
				for (long k = 0; k < g; k++) if (!(fabs (all[k * ch + c] - one[k]) <= tol)) fail ("frame %ld, channel %d of %d: %.9g, converting the channel alone gives %.9g", k, c, ch, all[k * ch + c], one[k]);
				cnt.evals += g;
			}
		}
	});
}
// Every ratio of the sweep, and every block size and capacity.
static void every_ratio (int conv, int ch, std::vector<double> rs, std::vector<long> sizes)
{	add (str ("%s ch=%d %zu ratios %.9g.., %zu block sizes", conv_name (conv), ch, rs.size (), rs[0], sizes.size ()), [=] () {
		std::vector<float> o; double tol = is_sinc (conv) ? 2e-5 : 2e-6;
		for (double r : rs)
		{	long N = is_sinc (conv) ? (long) (2.1 * half_span (conv, r)) + 20 : r < 1 ? (long) (30 / r) : 61; if (r > 1) N = std::min (N, (long) half_span (conv == MED ? MED : FAST, 1.0) + (long) (3000 / r)); if (! sizes.empty ()) N = std::min (2 * sizes.back (), 66000l);
			arena_reset (); statics_restore (); trace_len = 0; std::vector<float> x = make_signal (ch, N), m (N); std::vector<std::vector<float>> mono; long have = LONG_MAX, most = 0;
			for (int c = 0; c < ch; c++) { for (long i = 0; i < N; i++) m[i] = x[i * ch + c]; mono.push_back (oneshot (conv, 1, r, m.data (), N)); have = std::min (have, (long) mono.back ().size ()); most = std::max (most, (long) mono.back ().size ()); arena_reset (); }
			statics_restore (); trace_len = 0; SRC_STATE *s = make (conv, ch); Image fresh; fresh.save (); long b = N / 7 + 1;
			auto go = [&] (long blk, long cap) {
				fresh.restore (); trace_len = 1; cap = std::max (1l, cap);
				long got = convert_cut (s, ch, r, x.data (), N, blk, cap, false, o, [&] (long at, long g, const float *d) { cnt.evals += g * ch;
					for (long k = 0; k < g && at + k < have; k++) for (int c = 0; c < ch; c++) if (!(fabs (d[k * ch + c] - mono[c][at + k]) <= tol)) fail ("frame %ld, channel %d of %d: %.9g, converting the channel alone gives %.9g (%s, ratio %.17g, blocks of %ld, room for %ld)", at + k, c, ch, d[k * ch + c], mono[c][at + k], conv_name (conv), r, blk, cap); });
				if (got < have - 1 || got > most + 1) fail ("%ld frames from %d channels, %ld from a channel alone (%s, ratio %.17g)", got, ch, have, conv_name (conv), r); };
			if (sizes.empty ()) { go (N, (long) (N * r) + 60); go (b, (long) (b * r)); }
			else for (long z : sizes) { go (z, (long) (z * r)); go (N, z); }
		}
	});
}
static void wide (int conv, int ch)
{	add (str ("%s ch=%d very many channels", conv_name (conv), ch), [=] () {
		std::vector<float> x, m; std::vector<std::vector<float>> all, one; Log log; wide_stream (ch, 1, x); trace_len = 0; SRC_STATE *s = make (conv, ch); wide_run (s, ch, x.data (), all, log); src_delete (s);
		int kinds = std::min (ch, (int) WIDE_KINDS); m.resize (24);
		for (int v = 0; v < kinds; v++)
		{	if (ch > 20000 && !thorough () && v % 3) continue;
			for (long i = 0; i < 24; i++) m[i] = wide_sig (v, i);
			Log l; statics_restore (); trace_len = 0; tr ("%.0f channels; channel %.0f, and those with the same signal, alone:", ch, v); s = make (conv, 1, true); wide_run (s, 1, m.data (), one, l); src_delete (s); if (l.v != log.v) fail ("the counts of a stream of %d channels differ from those of channel %d alone", ch, v);
			for (int c = v; c < ch; c += WIDE_KINDS) for (size_t k = 0; k < one.size (); k++) for (size_t g = 0; g < one[k].size (); g++) { cnt.evals++; if (!(fabs (all[k][g * ch + c] - one[k][g]) <= 2e-6)) fail ("call %zu, frame %zu, channel %d of %d: %.9g, converting the channel alone gives %.9g", k, g, c, ch, all[k][g * ch + c], one[k][g]); }
		}
		cnt.traces++;
	});
}
void setup_tasks ()
{	property_id = "C03"; bool T = thorough ();
	rule = "A case is one src_process call on an interleaved stream in one reachable state of one configuration, every frame of every channel compared with the mono conversion of that channel; non-trivial when frames moved.";
	explanation = "Explicit-state search: all cuttings of short interleaved streams (and windows around buffer wraps) against mono conversions, and lock-step product of a c-channel converter with c mono converters through all sequences of ratio steps and ramps up to a depth.";
	const int ALL = 1000, D = T ? 3 : 2;
	std::vector<int> chans = { 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128 };
	for (int conv : { LIN, ZOH }) { auto cl = chans; cl.push_back (129); cl.push_back (200); cl.push_back (1000);
		for (int ch : cl) for (double r : { 1.0, 0.4, 1.7, 1 / 3.0, 5.0 }) constant (conv, ch, r, 0, r < 0.5 ? 14 : 8, { 1, 0, 2, 3, 100 }, { 1, 0, 2, 100 }, ch <= 17 ? ALL : 3); }
	for (int ch : chans) for (int conv : { FAST, MED }) for (double r : { 1.0, 0.63, 1.9 })
	{	if (conv == MED && ch > 17 && ch < 127 && !T) continue;
		long N = (long) (2.5 * half_span (conv, r)); int d = ch <= 8 ? D : ch <= 33 ? 1 : 0;
		if (T) d = ch <= 8 ? 3 : 2;
		constant (conv, ch, r, 0, N, { 11, 1, 0, 40, 100000 }, { 12, 1, 0, 100000 }, d);
	}
	for (int ch : { 2, 3, 4, 6, 7 }) for (double r : { 0.02, 1.0 / 256, 60.0, 256.0 })
	{	long N = r < 1 ? (long) (2.2 * half_span (FAST, r)) : 30; constant (FAST, ch, r, 0, N, { N / 5 + 1, 0, 100000 }, { (long) (N / 5 * r) + 1, 1, 100000 }, 1); }
	// every channel count
	for (int ch = 2; ch <= 128; ch++) for (int conv : { LIN, ZOH, FAST, MED }) for (double r : { 0.83, 1.4 })
	{	if (std::find (chans.begin (), chans.end (), ch) != chans.end ()) continue;
		if (conv == MED && r > 1 && !T) continue;
		constant (conv, ch, r, 0, is_sinc (conv) ? (long) (2.2 * half_span (conv, r)) : 9, { is_sinc (conv) ? 11 : 2, 1, 100000 }, { is_sinc (conv) ? 12 : 3, 1, 100000 }, T ? 2 : is_sinc (conv) ? 0 : 1);
	}
	for (int ch = 129; ch <= 1100; ch += ch < 300 ? 1 : 37) for (int conv : { LIN, ZOH }) constant (conv, ch, 0.83, 0, 9, { 2, 1, 100000 }, { 3, 1, 100000 }, T);
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 100, 128, 200 }) for (double r : { 0.6, 1.3 })
	{	if (is_sinc (conv) && (ch > 128 || (conv == MED && !T && (ch > 7 || r < 1)))) continue;
		patterns (conv, ch, r); }
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 2, 3, 4, 5, 6, 7, 8, 16 })
	{	int parts = is_sinc (conv) ? 12 : 1, take = T || !is_sinc (conv) || (conv == FAST && ch <= 4) || ch == 2 ? parts : ch <= 8 ? 4 : 1; if (conv == MED && !T && ch > 2) take = 1;
		for (int k = 0; k < take; k++) every_ratio (conv, ch, some_ratios (parts, k * 5 + ch), {});
		if (ch <= 6 && (conv != MED || T)) for (double r : { 1.0, 0.91875, 1.7 }) { every_ratio (conv, ch, { r }, sweep_sizes (1100, T ? 1100 : 200)); if (r != 1.0 || T) every_ratio (conv, ch, { r }, sweep_sizes (is_sinc (conv) && !T ? 17000 : 66000, 0)); }
	}
	for (int conv : { LIN, ZOH }) for (int ch : wide_counts ()) wide (conv, ch);
	// long streams, through two wraps of the sinc buffer
	for (int ch : { 2, 3, 4, 5, 6, 7, 8 }) for (int conv : { FAST, MED })
	{	if (conv == MED && !T && ch > 3) continue;
		long H = lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1);
		constant (conv, ch, 0.9, 8 * H - 300, 8 * H + 100, { 100, 1, 0, 100000 }, { 95, 1, 100000 }, T ? 2 : 0);
	}
	for (int conv : { LIN, ZOH }) for (int ch : { 2, 3, 4, 5, 6, 7, 8 }) ramps (conv, ch, { 0.3, 1.0, 2.5 }, { 0, 1, 3 }, { 1, 4 }, T ? 5 : 4);
	for (int conv : { FAST, MED }) for (int ch : { 2, 3, 4, 5, 6, 7, 8 }) ramps (conv, ch, { 0.5, 1.0, 2.0 }, { 17, 200 }, { 1, 30 }, conv == FAST ? (T ? 4 : 3) : (T ? 3 : 2));
	for (int ch : { 16, 128 }) ramps (FAST, ch, { 0.5, 2.0 }, { 100 }, { 30 }, 2);
}
