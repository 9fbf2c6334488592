// C19: src_simple equals one src_process call with end_of_input on a new converter.
#include "ops.hpp"
using namespace mc;
struct A { long n, m; double r; int eof; int in = 0, out = 0; };	// in/out: 0 a buffer, 1 NULL; out 2..: overlapping by out-2 floats
struct Res { int err; long used, gen; double r; bool touched; std::vector<float> o; long n, m; };
static std::vector<float> X, O;
static const float CAN = 6.25e7f;
static SRC_DATA args (const A &a, int ch)
{	long need = std::max (a.n, 0l) * ch + std::max (a.m, 0l) * ch + 64; if ((long) O.size () < need + 64) O.resize (need + 64);
	std::fill (O.begin (), O.begin () + need, CAN);
	SRC_DATA d; memset (&d, 0, sizeof d);
	d.data_in = a.in == 1 ? NULL : X.data (); d.data_out = a.out == 1 ? NULL : O.data ();
	if (a.out >= 2) { memcpy (O.data () + 32, X.data (), std::max (a.n, 0l) * ch * 4); d.data_in = O.data () + 32; d.data_out = O.data () + 32 + (a.out - 2) - 20; }
	d.input_frames = a.n; d.output_frames = a.m; d.src_ratio = a.r; d.end_of_input = a.eof; d.input_frames_used = 4242; d.output_frames_gen = 4343;
	return d;
}
static Res result (int err, const SRC_DATA &d, const A &a, int ch)
{	Res r; r.err = err; r.used = d.input_frames_used; r.gen = d.output_frames_gen; r.r = d.src_ratio; r.n = d.input_frames; r.m = d.output_frames; r.touched = false;
	long need = std::max (a.n, 0l) * ch + std::max (a.m, 0l) * ch + 64; r.o.assign (O.begin (), O.begin () + need);
	return r;
}
static bool same_bits (double a, double b) { return memcmp (&a, &b, 8) == 0; }
static void one (int conv, int ch, const A &a)
{	trace_len = 0; tr ("converter %.0f, %.0f channels: input_frames=%.0f, output_frames=%.0f, src_ratio=%.17g, end_of_input=%.0f", conv, ch, a.n, a.m, a.r, a.eof);
	arena_reset (); statics_restore ();
	// reference: new, process with end_of_input, delete
	Res want, got; int e = 0;
	{	SRC_DATA d = args (a, ch); const float *pi = d.data_in; float *po = d.data_out; d.end_of_input = 1; SRC_STATE *s; { InCall g; s = src_new (conv, ch, &e); }
		if (s) { InCall g; e = src_process (s, &d); src_delete (s); }
		want = result (e, d, a, ch); (void) pi; (void) po; }
	fill_byte = 0x3C;	// other contents of new memory for the call under test
	{	SRC_DATA d = args (a, ch); const float *pi = d.data_in; float *po = d.data_out; uint64_t live = arena->nlive; int err; tr ("src_simple"); { InCall g; err = src_simple (&d, conv, ch); } got = result (err, d, a, ch);
		arena_check (); if (arena->nlive != live) fail ("src_simple left %ld blocks allocated", (long) arena->nlive - (long) live);
		if (d.data_in != pi || d.data_out != po) fail ("src_simple changed the buffer pointers of the caller's SRC_DATA"); }
	fill_byte = 0xC5;
	cnt.trans++; cnt.evals++; cnt.states++; cnt.nontriv += want.err == 0 && want.gen > 0;
	if (got.err != want.err) fail ("src_simple returned %d, new/process/delete gives %d", got.err, want.err);
	if (got.err && (!src_strerror (got.err) || !*src_strerror (got.err))) fail ("no text for the error %d of src_simple", got.err);
	if (!want.err && (got.used != want.used || got.gen != want.gen)) fail ("src_simple used %ld frames and generated %ld, new/process/delete used %ld and generated %ld", got.used, got.gen, want.used, want.gen);
	if (!same_bits (got.r, want.r) || got.n != want.n || got.m != want.m) fail ("src_simple leaves input_frames=%ld output_frames=%ld src_ratio=%g in SRC_DATA, src_process leaves %ld %ld %g", got.n, got.m, got.r, want.n, want.m, want.r);
	if (memcmp (got.o.data (), want.o.data (), want.o.size () * 4))
	{	size_t k = 0; while (!memcmp (&got.o[k], &want.o[k], 4)) k++;
		fail ("output float %zu is %.9g, new/process/delete gives %.9g", k, got.o[k], want.o[k]); }
	cnt.evals += want.gen * ch;
}
static void grid (int conv, int ch, double r, std::vector<long> ns)
{	add (str ("%s ch=%d ratio=%.9g", conv_name (conv), ch, r), [=] () {
		long mx = 0; for (long n : ns) mx = std::max (mx, n); X = make_signal (ch, mx + 2);
		bool first = true;
		for (long n : ns)
		{	long full = (long) (n * r); std::vector<long> ms = { 0, 1, 2, 3, full / 2, full - 1, full, full + 1, full + 2, full + 60 };
			std::sort (ms.begin (), ms.end ()); ms.erase (std::unique (ms.begin (), ms.end ()), ms.end ());
			for (long m : ms) if (m >= 0) for (int eof : { 0, 1, -1, 7 }) { if (eof > 1 && m != full) continue; one (conv, ch, A { n, m, r, eof }); if (first && n > 3 && m == full) { sample_trace ("one call"); first = false; } }
		}
		cnt.traces++;
	});
}
static void invalid (int conv, int ch)
{	add (str ("invalid arguments, converter %d, %d channels", conv, ch), [=] () {
		int cc = std::max (1, std::min (ch, 300)); X = make_signal (cc, 200);
		// all combinations of good and bad argument values
		for (long n : { 0l, 5l, 60l, -1l, LONG_MIN }) for (long m : { 0l, 7l, 60l, -1l, LONG_MIN }) for (double r : { 1.0, 0.5, 1.0 / 256, 256.0, 0.0, -1.0, (double) NAN, (double) INFINITY, 257.0, 1.0 / 257 }) for (int eof : { 0, 1 }) for (int in : { 0, 1 }) for (int out : { 0, 1, 3, 20, 22 })
			one (conv, ch > 0 && ch <= 300 ? ch : 1, A { n, m, r, eof, in, out });
		if (ch < 1 || ch > 128)
		{	for (long n : { 0l, 5l }) for (long m : { 0l, 7l }) for (double r : { 1.0, 1000.0 })
			{	SRC_DATA d; memset (&d, 0, sizeof d); d.data_in = X.data (); d.data_out = O.data (); d.input_frames = n; d.output_frames = m; d.src_ratio = r; int e, w = -1;
				O.assign (O.size (), CAN); tr ("src_simple with %.0f channels", ch);
				SRC_STATE *s; { InCall g; s = src_new (conv, ch, &w); } if (s) { src_delete (s); continue; }
				{ InCall g; e = src_simple (&d, conv, ch); } cnt.trans++; cnt.evals++;
				if (e != w) fail ("src_simple with %d channels returned %d, src_new reports %d", ch, e, w);
				for (float f : O) if (f != CAN) fail ("a refused src_simple wrote output");
			}
		}
		{	int e; tr ("src_simple (NULL)"); { InCall g; e = src_simple (NULL, conv, ch); } cnt.trans++; cnt.evals++; if (!e) fail ("src_simple (NULL) returned no error"); if (arena->nlive) fail ("src_simple (NULL) leaks"); }
		cnt.traces++;
	});
}
// No state between calls: all sequences of simple calls, other converters and their calls, with the answer of each known from before.
static void sequences (std::vector<std::pair<int,int>> kinds, int depth)
{	add (str ("sequences of calls, %s/%d first, depth %d", conv_name (kinds[0].first), kinds[0].second, depth), [=] () {
		X = make_signal (4, 400);
		struct C { int conv, ch; A a; Res want; }; std::vector<C> calls;
		auto run = [&] (C &c) { SRC_DATA d = args (c.a, c.ch); int e; { InCall g; e = src_simple (&d, c.conv, c.ch); } return result (e, d, c.a, c.ch); };
		for (auto &k : kinds) for (A a : { A { 30, 40, 1.0, 0 }, A { 50, 20, 0.6, 1 }, A { 9, 90, 7.5, 0 }, A { 0, 5, 1.0, 0 }, A { 5, 5, 300.0, 0 } }) calls.push_back ({ k.first, k.second, a, {} });
		for (auto &c : calls) { arena_reset (); statics_restore (); c.want = run (c); }
		arena_reset (); statics_restore ();
		// a converter that is in the middle of a stream must not notice
		Env e; e.init (1, 2000); Src src; SRC_STATE *s = make (kinds[0].first, 1); apply (e, s, src, P (150, 100, 0.8), NULL);
		std::vector<Image> img; std::unordered_map<uint64_t, int> seen;
		std::vector<float> cont; { Image im; im.save (); Src q = src; Log l; apply (e, s, q, P (100, 100, 0.8), &l); im.restore (); }
		std::function<void(int)> dfs = [&] (int d)
		{	while ((int) img.size () <= d) img.emplace_back ();
			img[d].save (); int tl = trace_len;
			if (d == depth) return;
			for (auto &c : calls) for (int fill : { 0xA5, 0x00, 0x7F })
			{	img[d].restore (); trace_len = tl; uint64_t live = arena->nlive; fill_byte = fill; tr ("src_simple (converter %.0f, %.0f channels, input_frames=%.0f, output_frames=%.0f, src_ratio=%g)", c.conv, c.ch, c.a.n, c.a.m, c.a.r); Res g = run (c); fill_byte = 0xC5; cnt.trans++; cnt.evals++;
				if (g.err != c.want.err || g.used != c.want.used || g.gen != c.want.gen || memcmp (g.o.data (), c.want.o.data (), g.o.size () * 4)) fail ("src_simple gives a different result after other calls");
				arena_check (); if (arena->nlive != live) fail ("src_simple leaks");
				Log a, b; Image im; im.save (); Src q = src; apply (e, s, q, P (100, 100, 0.8), &a);
				img[0].restore (); q = src; apply (e, s, q, P (100, 100, 0.8), &b); compare (b, a, "a converter in use while src_simple was called"); im.restore ();
				uint64_t h = state_hash (); auto it = seen.find (h); if (it != seen.end () && it->second <= d + 1) continue;
				if (it == seen.end ()) { cnt.states++; cnt.nontriv++; } seen[h] = d + 1; dfs (d + 1);
			}
			img[d].restore (); trace_len = tl;
		};
		dfs (0); cnt.traces++; sample_trace ("sequence");
	});
}
// The same call over and over.
static void over_and_over (int conv, int ch, A a)
{	add (str ("%s ch=%d the same call over and over, ratio %g, %ld frames into %ld", conv_name (conv), ch, a.r, a.n, a.m), [=] () {
		X = make_signal (ch, 400); Res want;
		repeat (is_sinc (conv) ? 20000 : 70000, [&] (long k)
		{	SRC_DATA d = args (a, ch); int e; tr ("src_simple"); { InCall g; e = src_simple (&d, conv, ch); } Res r = result (e, d, a, ch); cnt.trans++; cnt.evals++;
			if (k == 0) want = r; else if (r.err != want.err || r.used != want.used || r.gen != want.gen || memcmp (r.o.data (), want.o.data (), r.o.size () * 4)) fail ("src_simple gives another result than the first time");
			if (arena->nlive) fail ("src_simple leaks"); });
		cnt.traces++;
	});
}
void setup_tasks ()
{	property_id = "C19"; bool T = thorough ();
	rule = "A case is one src_simple call; non-trivial when it succeeds and produces output.";
	explanation = "Bounded exhaustive enumeration of arguments on the real functions; oracle: creating a converter, one src_process call with end_of_input and deleting it, compared bit by bit; the allocator of the harness decides leaks.";
	std::vector<long> ns; for (long n = 0; n <= (T ? 60 : 24); n++) ns.push_back (n); for (long n : { 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 }) ns.push_back (n);
	for (double r : { 1.0, 2.0, 0.5, 1.5, 0.9, 1.1, 44100.0 / 48000, 3.7, 0.1, 10.0 }) for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 }) { if (conv == MED && r < 0.5 && ch > 2 && !T) continue; grid (conv, ch, r, ns); }
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (int k = 0; k < 8; k++)
	{	if (conv == MED && ch > 2 && !T) continue;
		add (str ("%s ch=%d every ratio, part %d", conv_name (conv), ch, k), [=] () {
			X = make_signal (ch, 30000);
			for (double r : some_ratios (8, k)) { long n = is_sinc (conv) ? (long) half_span (conv, r) + 30 : (long) (3 / r) + 9, full = (long) (n * r); one (conv, ch, A { n, full + 20, r, 0 }); one (conv, ch, A { n, full, r, 1 }); one (conv, ch, A { 3, full / 2 + 1, r, 0 }); }
			cnt.traces++; });
		if (k == 0) for (double r : { 1.0, 0.6, 1.7 }) add (str ("%s ch=%d ratio=%g particular values", conv_name (conv), ch, r), [=] () { for (int kind = 0; kind < VALUE_KINDS; kind++) { X = odd_signal (kind, ch, 300); for (long n : { 1, 2, 3, 20, 300 }) for (long m : { (long) (n * r) + 20, n / 2 + 1 }) one (conv, ch, A { n, m, r, 0 }); } cnt.traces++; });
		if (k == 0) for (double r : { 1.0, 0.91875, 1.7 }) { if (is_sinc (conv) && ch > 2 && r != 1.7 && !T) continue; add (str ("%s ch=%d ratio=%g every size", conv_name (conv), ch, r), [=] () {
			X = make_signal (ch, 100001); for (long n : sweep_sizes (conv == MED || ch > 2 ? 12000 : 100000, 300)) { one (conv, ch, A { n, (long) (n * r) + 20, r, 0 }); one (conv, ch, A { 2 * n > 100000 ? 100000 : 2 * n, n, r, 0 }); } cnt.traces++; }); }
	}
	for (double r : { 256.0, 1.0 / 256, 255.9, 1 / 255.9, 100.0, 0.01 }) for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3 }) grid (conv, ch, r, { 0, 1, 2, 3, 5, 10, 255, 256, 257, conv < ZOH && r < 1 ? 6000 : 300 });
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 16, 100, 128 }) grid (conv, ch, 0.9, { 0, 1, 2, 10, 90 });
	for (int conv : { LIN, ZOH, FAST, MED }) for (double r : { 1.0, 0.37, 2.2 }) grid (conv, 2, r, { 5000, 20000, 70001 });
	for (int conv : { -1, 0, 1, 2, 3, 4, 5, 6, 1000, INT_MIN, INT_MAX }) for (int ch : { 1, 2, 3, 5, 0, -1, INT_MIN, 129, 128 }) { if (ch == 128 && conv != FAST) continue; invalid (conv, ch); }
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (A a : { A { 40, 60, 1.0, 0 }, A { 60, 20, 0.6, 1 }, A { 5, 5, 300.0, 0 } }) over_and_over (conv, ch, a);
	sequences ({ { LIN, 1 }, { ZOH, 2 } }, T ? 4 : 3); sequences ({ { FAST, 1 }, { LIN, 2 } }, T ? 3 : 2); sequences ({ { FAST, 3 }, { ZOH, 1 } }, T ? 3 : 2); sequences ({ { MED, 2 }, { FAST, 4 } }, 2); sequences ({ { LIN, 3 }, { MED, 1 } }, T ? 3 : 2);
}
