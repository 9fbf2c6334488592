// C12: invalid calls are refused with the documented error and leave no trace.
#include "ops.hpp"
using namespace mc;
enum { E_STATE = 2, E_DATA = 3, E_PTR = 4, E_RATIO = 6, E_CONV = 10, E_CHAN = 11, E_OVERLAP = 16, E_CALLBACK = 17, E_MODE = 18 };
static void known_text (int e) { const char *t = src_strerror (e); if (!t || !*t) fail ("src_strerror (%d) has no text for an error a call returned", e); }
static std::vector<double> bad_ratios ()
{	double lo = 1.0 / 256, hi = 256;
	std::vector<double> v = { 0.0, -0.0, -1.0, -0.5, nextafter (lo, 0), nextafter (hi, 1e9), NAN, -NAN, INFINITY, -INFINITY, 1e-300, 5e-324, -5e-324, 1e300, DBL_MAX, -DBL_MAX, 257, 1.0 / 257, 256.0001, 0.0039, 1e-15, -256, -1.0 / 256, DBL_MIN, 1e9, 4294967296.0 };
	for (int e = -1074; e <= 1023; e += 13) { double x = ldexp (1.0, e); if (x < lo || x > hi) { v.push_back (x); v.push_back (-x); } }
	return v;
}
// One invalid (or neutral) call.  Performs it, checks everything about it, and must not change anything.
struct Bad { std::string name; std::function<void(SRC_STATE *, Env &)> run; };
static const float CANARY = 3.25e7f;
static std::vector<float> cin, cout_;		// input and output of the refused calls
static long cb_calls;
static long count_cb (void *u, float **d) { cb_calls++; return env_callback (u, d); }
static void refused (SRC_STATE *s, int want, const float *in, float *out, long n, long m, double r, int eof, const char *what)
{	SRC_DATA d; memset (&d, 0, sizeof d); d.data_in = in; d.data_out = out; d.input_frames = n; d.output_frames = m; d.src_ratio = r; d.end_of_input = eof;
	std::vector<float> before = cin; std::fill (cout_.begin (), cout_.end (), CANARY); long c0 = cb_calls;
	int e; tr ("src_process (input_frames=%.0f, output_frames=%.0f, src_ratio=%.17g, end_of_input=%.0f) with invalid arguments", n, m, r, eof); { InCall g; e = src_process (s, &d); }
	cnt.trans++; cnt.evals++;
	if (e != want) fail ("%s: src_process returned %d (%s), expected error %d (%s)", what, e, src_strerror (e) ? src_strerror (e) : "no text", want, src_strerror (want));
	known_text (e);
	for (float v : cout_) if (v != CANARY) fail ("%s: the refused call wrote output", what);
	if (memcmp (before.data (), cin.data (), cin.size () * sizeof (float))) fail ("%s: the refused call wrote to the input", what);
	if (cb_calls != c0) fail ("%s: the refused call called the callback", what);
	arena_check ();
}
static std::vector<Bad> bads (int ch, bool cb)
{	std::vector<Bad> v;
	auto add1 = [&] (std::string n, std::function<void(SRC_STATE *, Env &)> f) { v.push_back ({ n, f }); };
	if (!cb)
	{	add1 ("data NULL", [] (SRC_STATE *s, Env &) { tr ("src_process (state, NULL)"); InCall g; int e = src_process (s, NULL); cnt.evals++; if (e != E_DATA) fail ("src_process with NULL data returned %d", e); });
		for (int eof : { 0, 1 }) for (long n : { 1l, 8l, 100000l, LONG_MAX / 1024 }) for (long m : { 0l, 1l, 8l })
			add1 ("data_in NULL", [=] (SRC_STATE *s, Env &) { refused (s, E_PTR, NULL, cout_.data (), n, m, 1.0, eof, "NULL data_in"); });
		for (int eof : { 0, 1 }) for (long m : { 1l, 8l, 1000000l, LONG_MAX / 1024 }) for (long n : { 0l, 1l, 8l })
			add1 ("data_out NULL", [=] (SRC_STATE *s, Env &) { refused (s, E_PTR, cin.data (), NULL, n, m, 1.0, eof, "NULL data_out"); });
		add1 ("both NULL", [] (SRC_STATE *s, Env &) { refused (s, E_PTR, NULL, NULL, 4, 4, 1.0, 0, "both NULL"); });
		for (double r : bad_ratios ()) { add1 (str ("ratio %g", r), [=] (SRC_STATE *s, Env &) { refused (s, E_RATIO, cin.data (), cout_.data (), 5, 7, r, 0, "bad ratio"); refused (s, E_RATIO, cin.data (), cout_.data (), 0, 7, r, 1, "bad ratio"); }); }
		// every relative position of input and output blocks of n and m frames that share a float
		for (long n : { 1l, 2l, 5l }) for (long m : { 1l, 2l, 4l }) add1 (str ("overlap %ld %ld", n, m), [=] (SRC_STATE *s, Env &)
		{	std::vector<float> a ((n + 2 * m + 4) * ch, CANARY), b = a; float *in = a.data () + (m + 1) * ch; memset (in, 0, n * ch * sizeof (float)); b = a;
			long step = ch > 8 ? ch / 3 : 1; std::vector<long> offs = { -m * ch + 1, n * ch - 1, 0, 1, -1, ch, -ch, (n - m) * ch };
			for (long o = -m * ch + 1; o < n * ch; o += step) offs.push_back (o);
			for (long off : offs)
			{	if (off <= -m * ch || off >= n * ch) continue;
				SRC_DATA d; memset (&d, 0, sizeof d); d.data_in = in; d.data_out = in + off; d.input_frames = n; d.output_frames = m; d.src_ratio = 1.0;
				tr ("src_process with data_out = data_in + %.0f floats, %.0f input and %.0f output frames", off, n, m);
				int e; { InCall g; e = src_process (s, &d); } cnt.trans++; cnt.evals++;
				if (e != E_OVERLAP) fail ("output %ld floats after the input (%ld input, %ld output frames, %d channels): src_process returned %d, expected %d", off, n, m, ch, e, E_OVERLAP);
				if (memcmp (a.data (), b.data (), a.size () * sizeof (float))) fail ("the refused call wrote to the buffers");
			}
		});
		// requests of 2^29 and more frames or samples that run into the other buffer
		add1 ("huge overlap", [=] (SRC_STATE *s, Env &)
		{	std::vector<long> ns; for (int e = 29; e <= 36; e++) for (long d : { -1l, 0l, 1l, 3l }) { ns.push_back ((1l << e) + d); ns.push_back (((1l << e) + d) / ch + 1); }
			std::vector<float> a (60 * ch, CANARY), b = a; float *low = a.data () + 4 * ch, *high = a.data () + 20 * ch; memset (low, 0, 2 * ch * sizeof (float)); memset (high, 0, 2 * ch * sizeof (float)); b = a;
			for (long n : ns) for (int in_first = 0; in_first < 2; in_first++) for (long m : { 1l, 5l })
			{	SRC_DATA d; memset (&d, 0, sizeof d); d.data_in = in_first ? low : high; d.data_out = in_first ? high : low; d.input_frames = in_first ? n : m; d.output_frames = in_first ? m : n; d.src_ratio = 1.0;
				tr ("src_process with %.0f input and %.0f output frames, output %.0f floats after the input", d.input_frames, d.output_frames, d.data_out - d.data_in);
				int e; { InCall g; e = src_process (s, &d); } cnt.trans++; cnt.evals++;
				if (e != E_OVERLAP) fail ("overlapping request of %ld frames (%d channels): src_process returned %d, expected %d", n, ch, e, E_OVERLAP);
				if (memcmp (a.data (), b.data (), a.size () * sizeof (float))) fail ("the refused call wrote to the buffers");
			}
		});
		add1 ("callback_read on process converter", [] (SRC_STATE *s, Env &)
		{	std::fill (cout_.begin (), cout_.end (), CANARY); tr ("src_callback_read on a process converter"); long g; { InCall ic; g = src_callback_read (s, 1.0, 5, cout_.data ()); } cnt.evals++;
			if (g) fail ("src_callback_read on a process converter returned %ld", g);
			if (src_error (s) != E_MODE) fail ("src_callback_read on a process converter records error %d, expected %d", src_error (s), E_MODE);
			for (float f : cout_) if (f != CANARY) fail ("the refused src_callback_read wrote output");
		});
		add1 ("negative frames", [] (SRC_STATE *s, Env &)
		{	for (long n : { -1l, -100l, LONG_MIN }) for (long m : { 0l, -1l, LONG_MIN })
			{	SRC_DATA d; memset (&d, 0, sizeof d); d.data_in = cin.data (); d.data_out = cout_.data (); d.input_frames = n; d.output_frames = m; d.src_ratio = 1.0; std::fill (cout_.begin (), cout_.end (), CANARY);
				Image im; im.save ();	// a legitimate empty call may touch the state: check it alone
				int e; tr ("src_process (input_frames=%.0f, output_frames=%.0f)", n, m); { InCall g; e = src_process (s, &d); } cnt.evals++;
				if (e || d.input_frames_used != 0 || d.output_frames_gen != 0) fail ("negative frame counts: error %d, used %ld, gen %ld; they count as zero", e, d.input_frames_used, d.output_frames_gen);
				for (float f : cout_) if (f != CANARY) fail ("a call with a negative frame count wrote output");
				im.restore ();
			}
			// like a call with zero frames, also for what follows
			for (int k = 0; k < 2; k++) for (int eof = 0; eof < 2; eof++) for (int null = 0; null < 2; null++) for (double r : { 1.0, 0.3 })
			{	Image im; im.save (); R q[2][3]; std::vector<float> o[2][3]; long room = (long) cout_.size () / (long) std::max (1, src_get_channels (s)) - 1;
				for (int neg = 0; neg < 2; neg++)
				{	im.restore (); for (auto &v : o[neg]) v.assign (cout_.size (), CANARY);
					q[neg][0] = process (s, null && k == 0 ? NULL : cin.data (), neg && k == 0 ? -3 : k == 0 ? 0 : 6, null && k == 1 ? NULL : o[neg][0].data (), neg && k == 1 ? -3 : k == 1 ? 0 : 6, r, eof, true);	// counts checked below
					for (int c = 1; c < 3; c++) q[neg][c] = process (s, cin.data (), 0, o[neg][c].data (), room, r, 1, true);
				}
				im.restore (); cnt.evals++;
				for (int c = 0; c < 3; c++) if (q[0][c].err != q[1][c].err || q[0][c].used != q[1][c].used || q[0][c].gen != q[1][c].gen || o[0][c] != o[1][c]) fail ("a negative frame count does not act like zero");
			}
		});
	}
	else
	{	for (double r : bad_ratios ()) add1 (str ("read ratio %g", r), [=] (SRC_STATE *s, Env &)
		{	std::fill (cout_.begin (), cout_.end (), CANARY); long c0 = cb_calls; tr ("src_callback_read (ratio=%.17g, frames=5)", r); long g; { InCall ic; g = src_callback_read (s, r, 5, cout_.data ()); } cnt.evals++;
			if (g) fail ("src_callback_read at ratio %g returned %ld frames", r, g);
			if (src_error (s) != E_RATIO) fail ("src_callback_read at ratio %g records error %d, expected %d", r, src_error (s), E_RATIO);
			for (float f : cout_) if (f != CANARY) fail ("the refused src_callback_read wrote output");
			if (cb_calls != c0) fail ("a refused src_callback_read called the callback");
		});
		for (long m : { 0l, -1l, LONG_MIN }) add1 (str ("read %ld frames", m), [=] (SRC_STATE *s, Env &)
		{	std::fill (cout_.begin (), cout_.end (), CANARY); long c0 = cb_calls; tr ("src_callback_read (ratio=1, frames=%.0f)", m); long g; { InCall ic; g = src_callback_read (s, 1.0, m, cout_.data ()); } cnt.evals++;
			if (g || cb_calls != c0) fail ("a read of %ld frames returned %ld and called the callback %ld times", m, g, cb_calls - c0);
			for (float f : cout_) if (f != CANARY) fail ("a read of %ld frames wrote output", m);
		});
		for (int eof : { 0, 1 }) for (long m : { 0l, 5l }) add1 ("process on callback converter", [=] (SRC_STATE *s, Env &) { refused (s, E_MODE, cin.data (), cout_.data (), 5, m, 1.0, eof, "src_process on a callback converter"); });
	}
	for (double r : bad_ratios ()) add1 (str ("set_ratio %g", r), [=] (SRC_STATE *s, Env &) { tr ("src_set_ratio (%.17g)", r); InCall g; int e = src_set_ratio (s, r); cnt.evals++; if (e != E_RATIO) fail ("src_set_ratio (%.17g) returned %d, expected %d", r, e, E_RATIO); known_text (e); });
	add1 ("NULL converter", [] (SRC_STATE *, Env &)
	{	SRC_DATA d; memset (&d, 0, sizeof d); d.src_ratio = 1.0; InCall g; cnt.evals++; tr ("all calls with a NULL converter"); int err = 77;
		if (src_process (NULL, &d) != E_STATE) fail ("src_process (NULL, data) returned %d", src_process (NULL, &d));
		if (src_process (NULL, NULL) != E_STATE && src_process (NULL, NULL) != E_DATA) fail ("src_process (NULL, NULL) returned %d", src_process (NULL, NULL));
		if (src_callback_read (NULL, 1.0, 5, cout_.data ()) != 0) fail ("src_callback_read (NULL, ...) returned frames");
		if (src_set_ratio (NULL, 1.0) != E_STATE) fail ("src_set_ratio (NULL, 1) returned %d", src_set_ratio (NULL, 1.0));
		if (src_reset (NULL) != E_STATE) fail ("src_reset (NULL) returned %d", src_reset (NULL));
		if (src_clone (NULL, &err) != NULL || err != E_STATE) fail ("src_clone (NULL) gives error %d", err);
		if (src_clone (NULL, NULL) != NULL) fail ("src_clone (NULL, NULL) returned a converter");
		if (src_get_channels (NULL) >= 0) fail ("src_get_channels (NULL) returned %d", src_get_channels (NULL));
		if (src_delete (NULL) != NULL) fail ("src_delete (NULL) did not return NULL");
		if (src_error (NULL) != 0 && !src_strerror (src_error (NULL))) fail ("src_error (NULL) returned %d", src_error (NULL));
	});
	return v;
}
static void hist (int conv, int ch, bool cb, const char *nm, std::vector<Op> prefix, std::vector<Op> menu, int depth)
{	add (str ("%s ch=%d %s %s depth=%d", conv_name (conv), ch, cb ? "callback" : "process", nm, depth), [=] () {
		Env e; e.init (ch); e.script.blocks = is_sinc (conv) ? std::vector<long> { 100, 1, 50, 200, 3, 0 } : std::vector<long> { 3, 1, 10, 2, 30, 0 };
		cin = make_signal (ch, 120); cout_.assign (120 * ch, CANARY);
		int err; SRC_STATE *s = cb ? src_callback_new (count_cb, conv, ch, &err, &e) : make (conv, ch, true); if (!s) fail ("cannot create the converter");
		trace_len = 0; tr (cb ? "src_callback_new (converter=%.0f, channels=%.0f)" : "src_new (converter=%.0f, channels=%.0f)", conv, ch);
		Src src; env_now = &e; e.reader = &src; for (auto &o : prefix) apply (e, s, src, o, NULL);
		std::vector<Bad> B = bads (ch, cb);
		std::vector<std::vector<Op>> probes;
		long a = is_sinc (conv) ? 150 : 5;
		if (!cb) probes = { { P (a, 30, 0.7), P (a, 400, 0.7, 1), K (CHANQ) }, { P (0, 4, 1.0), P (a, 60, 1.0), P (a, 100, 2.0), P (3, 600, 1.0, 1) } };
		else probes = { { Rd (5, 1.0), Rd (300, 1.0), Rd (300, 1.0), K (CHANQ) }, { Rd (9, 0.4), Rd (2000, 2.0) } };
		std::unordered_map<uint64_t, int> seen; std::vector<Image> img; Image mid; std::unordered_set<uint64_t> after;
		std::function<void(int, Src)> dfs = [&] (int d, Src src)
		{	while ((int) img.size () <= d) img.emplace_back ();
			img[d].save (); int tl = trace_len;
			std::vector<Log> want;
			for (auto &p : probes) { img[d].restore (); Src q = src; Log l; for (auto &o : p) apply (e, s, q, o, &l); want.push_back (l); }
			for (auto &b : B)
			{	img[d].restore (); trace_len = tl; e.reader = &src; env_now = &e; Src keep = src;
				b.run (s, e);
				if (memcmp (&keep, &src, sizeof keep)) fail ("the refused call (%s) took data from the callback", b.name.c_str ());
				uint64_t h = state_hash (tl);
				if (!after.insert (h).second) continue;
				mid.save (); cnt.extra[0]++;
				int tl2 = trace_len;
				for (size_t i = 0; i < probes.size (); i++)
				{	mid.restore (); trace_len = tl2; Src q = src; Log l; for (auto &o : probes[i]) apply (e, s, q, o, &l);


					compare (want[i], l, str ("after the refused call (%s), against the same history without it", b.name.c_str ()).c_str ()); cnt.traces++;
				}
				if (cnt.traces == 4) sample_trace ("history, refused call, continuation");
			}
			if (d < depth) for (auto &o : menu)
			{	img[d].restore (); trace_len = tl; Src q = src; apply (e, s, q, o, NULL);
				uint64_t h = state_hash (mix (q.pos, mix (q.blk, q.ended))); auto it = seen.find (h);
				if (it == seen.end () || it->second > d + 1) { if (it == seen.end ()) { cnt.states++; cnt.nontriv++; } seen[h] = d + 1; dfs (d + 1, q); }
			}
			img[d].restore (); trace_len = tl;
		};
		dfs (0, src);
	});
}
// The same refused call over and over, until the state recurs or 70000 times; then the converter goes on as if nothing had happened.
static void insistent (int conv, int ch, bool cb)
{	add (str ("%s ch=%d %s the same refused call over and over", conv_name (conv), ch, cb ? "callback" : "process"), [=] () {
		Env e; e.init (ch, 4000); e.script.blocks = { 100, 1, 50, 60, 0 }; int err;
		cin = make_signal (ch, 120); cout_.assign (120 * ch, CANARY);
		tr (cb ? "src_callback_new (converter=%.0f, channels=%.0f)" : "src_new (converter=%.0f, channels=%.0f)", conv, ch);
		SRC_STATE *s = cb ? src_callback_new (count_cb, conv, ch, &err, &e) : make (conv, ch, true); Src src; Log want; Image at; env_now = &e; e.reader = &src;
		std::vector<Op> pre = cb ? std::vector<Op> { Rd (20, 0.9) } : std::vector<Op> { P (90, 20, 0.9) }, cont = cb ? std::vector<Op> { Rd (30, 1.2), Rd (300, 1.2) } : std::vector<Op> { P (60, 50, 1.2), P (3, 100, 1.2, 1) };
		for (auto &o : pre) apply (e, s, src, o, NULL);
		at.save (); { bool le = log_error; log_error = false; Src q = src; for (auto &o : cont) apply (e, s, q, o, &want); log_error = le; }
		std::string last;
		for (auto &b : bads (ch, cb))
		{	std::string kind = b.name.substr (0, b.name.find_first_of (" -0123456789", 8)); if (kind == last) continue; last = kind;
			at.restore (); trace_len = 0; tr (("(refused call: " + b.name + ")").c_str ()); env_now = &e; e.reader = &src;
			repeat (b.name.find ("overlap") != std::string::npos ? 300 : 70000, [&] (long) { b.run (s, e); });
			Log l; bool le = log_error; log_error = false; Src q = src; for (auto &o : cont) apply (e, s, q, o, &l); log_error = le; env_now = &e; e.reader = &src;
			compare (want, l, str ("after many refused calls (%s)", b.name.c_str ()).c_str ()); cnt.traces++;
		}
	});
}
static long dummy_cb (void *, float **d) { static float z[256]; *d = z; return 0; }
static void creation ()
{	add ("src_new and src_callback_new: all converter numbers and channel counts", [] () {
		std::vector<int> convs; for (int c = -70; c <= 70; c++) convs.push_back (c);
		for (int b = 7; b < 32; b++) for (int d : { -1, 0, 1 }) { convs.push_back ((int) ((1u << b) + d)); convs.push_back (-(int) ((1u << (b & 30)) + d)); }
		std::vector<int> chans = { INT_MIN, INT_MIN + 1, -65536, -128, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 127, 128, 129, 130, 256, 257, 1000, 65535, 65536 };
		for (int conv : convs) for (int ch : chans) for (int cb = 0; cb < 3; cb++) for (int noerr = 0; noerr < 2; noerr++)
		{	arena_reset (); statics_restore (); trace_len = 0; int err = 12345;
			tr (cb ? "src_callback_new (func %.0f, converter=%.0f, channels=%.0f)" : "src_new (%.0f converter=%.0f, channels=%.0f)", cb == 2 ? 0 : 1, conv, ch);
			SRC_STATE *s; { InCall g; s = cb ? src_callback_new (cb == 2 ? NULL : dummy_cb, conv, ch, noerr ? NULL : &err, NULL) : src_new (conv, ch, noerr ? NULL : &err); }
			cnt.trans++; cnt.evals++; cnt.states++; cnt.nontriv++;
			bool knownc = conv == MED || conv == FAST || conv == ZOH || conv == LIN, badc = !knownc, badch = ch < 1 || (is_sinc (conv) && ch > 128), badcb = cb == 2;
			if (!badc && !badch && !badcb)
			{	if (!s) fail ("creating converter %d with %d channels failed with error %d", conv, ch, err);
				if (!noerr && err) fail ("a converter was created and the error is %d", err);
				if (src_get_channels (s) != ch) fail ("src_get_channels gives %d for %d channels", src_get_channels (s), ch);
				if (src_error (s)) fail ("src_error of a new converter is %d", src_error (s));
				if (src_delete (s) != NULL) fail ("src_delete did not return NULL");
			}
			else
			{	if (s) fail ("converter %d with %d channels and %s callback was created", conv, ch, cb == 2 ? "a NULL" : "no or a valid");
				if (!noerr)
				{	if (!((badc && err == E_CONV) || (badch && err == E_CHAN) || (badcb && err == E_CALLBACK))) fail ("creating converter %d with %d channels%s gives error %d (%s)", conv, ch, badcb ? " and a NULL callback" : "", err, src_strerror (err) ? src_strerror (err) : "no text");
					known_text (err);
				}
			}
			if (arena->nlive) fail ("%lu blocks left allocated after creating (and deleting) converter %d with %d channels", (unsigned long) arena->nlive, conv, ch);
		}
		cnt.traces++; sample_trace ("creation with one pair of arguments");
	});
	add ("src_simple: invalid arguments", [] () {
		std::vector<float> in = make_signal (3, 40), out (900, CANARY);
		for (int conv : { -1, 0, 1, 2, 3, 4, 5, 99, INT_MIN, INT_MAX }) for (int ch : { INT_MIN, -1, 0, 1, 3, 128, 129, 1 << 20 }) for (double r : { 1.0, 0.5, 0.0, -1.0, (double) NAN, 300.0, 1e-9, (double) INFINITY, 256.0 }) for (int np = 0; np < 5; np++)
		{	arena_reset (); statics_restore (); trace_len = 0;
			SRC_DATA d; memset (&d, 0, sizeof d); d.data_in = np == 1 || np == 3 ? NULL : in.data (); d.data_out = np == 2 || np == 3 ? NULL : np == 4 ? in.data () + 1 : out.data (); d.input_frames = 3; d.output_frames = 3; d.src_ratio = r;
			if (ch > 40 && np == 0) { d.input_frames = 0; d.output_frames = 0; }
			tr ("src_simple (converter=%.0f, channels=%.0f, ratio=%.17g, pointers variant %.0f)", conv, ch, r, np);
			int e; { InCall g; e = src_simple (&d, conv, ch); } cnt.trans++; cnt.evals++; cnt.states++; cnt.nontriv++;
			std::vector<int> ok; bool knownc = conv >= 1 && conv <= 4;
			if (!knownc) ok.push_back (E_CONV);
			if (ch < 1 || (is_sinc (conv) && ch > 128)) ok.push_back (E_CHAN);
			if (!(r >= 1.0 / 256 && r <= 256)) ok.push_back (E_RATIO);
			if (np >= 1 && np <= 3) ok.push_back (E_PTR);
			if (np == 4) ok.push_back (E_OVERLAP);
			if (ok.empty ()) ok.push_back (0);
			if (std::find (ok.begin (), ok.end (), e) == ok.end ()) fail ("src_simple (converter %d, channels %d, ratio %g, pointers variant %d) returned %d, expected %d", conv, ch, r, np, e, ok[0]);
			known_text (e);
			if (e) for (float v : out) if (v != CANARY) fail ("a refused src_simple wrote output");
			std::fill (out.begin (), out.end (), CANARY);
			if (arena->nlive) fail ("src_simple left %lu blocks allocated", (unsigned long) arena->nlive);
			arena_check ();
		}
		for (int conv : { 1, 2, 3, 4 }) { tr ("src_simple (NULL)"); InCall g; int e = src_simple (NULL, conv, 1); if (e != E_DATA) fail ("src_simple with NULL data returned %d", e); if (arena->nlive) fail ("src_simple (NULL) leaked"); }
		cnt.traces++;
	});
	add ("buffers that touch but do not overlap are accepted", [] () {
		for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 7 }) for (long n : { 1l, 2l, 9l, 100l }) for (long m : { 1l, 3l, 50l }) for (int side = 0; side < 2; side++)
		{	arena_reset (); statics_restore (); trace_len = 0; SRC_STATE *s = make (conv, ch, true);
			std::vector<float> a ((n + m) * ch, 0.5f); float *in = side ? a.data () + m * ch : a.data (), *out = side ? a.data () : a.data () + n * ch;
			R q = process_ok (s, in, n, out, m, 1.0, 0); cnt.trans++; cnt.evals++; cnt.states++; cnt.nontriv += q.used > 0;
		}
		cnt.traces++;
	});
}
// A callback that supplies data that cannot be used: a count without data, or data inside the reader's buffer; and reads without a buffer.
static int bad_at, bad_kind; static float *bad_ptr; static long bad_seen;
static long bad_cb (void *u, float **d)
{	Env *e = (Env *) u; if (e->reader->blk == bad_at && bad_kind) { bad_seen++; *d = bad_kind == 1 ? NULL : bad_ptr; e->reader->blk++; return 3; }
	return env_callback (u, d); }
static void bad_callback_data (int conv, int ch)
{	add (str ("%s ch=%d unusable data from the callback, reads without a buffer", conv_name (conv), ch), [=] () {
		Env e; e.init (ch); bool sc = is_sinc (conv); e.script.blocks = sc ? std::vector<long> { 100, 1, 50, 200, 3, 0 } : std::vector<long> { 3, 1, 10, 2, 30, 0 };
		for (double r : { 1.0, 0.4, 2.5 }) for (long m : { 1l, 7l, 40l, 500l })
		{	std::vector<float> want, out ((m + 4) * ch, CANARY), scratch (500 * ch);
			for (int kind = 0; kind < 4; kind++) for (int at = 0; at < (kind ? 5 : 1); at++)
			{	arena_reset (); statics_restore (); trace_len = 0; int err; Src src; env_now = &e; e.reader = &src; bad_kind = kind == 3 ? 0 : kind; bad_at = at; bad_seen = 0; bad_ptr = out.data () + (m - 1) * ch;
				tr ("src_callback_new (converter=%.0f, channels=%.0f); kind of bad data %.0f in block %.0f", conv, ch, kind, at);
				SRC_STATE *s; { InCall g; s = src_callback_new (bad_cb, conv, ch, &err, &e); } if (!s) fail ("cannot create the converter");
				std::vector<float> got;
				for (int k = 0; k < 2000; k++)
				{	if (kind == 3 && k % 5 == at)
					{	std::vector<float> b4 = out; tr ("src_callback_read (ratio=%.17g, frames=%.0f) without a buffer", r, m); long g; { InCall ic; g = src_callback_read (s, r, m, NULL); } cnt.evals++; cnt.trans++;
						if (g) fail ("src_callback_read without a buffer returned %ld frames", g);
						if (src_error (s) != E_PTR) fail ("src_callback_read without a buffer records error %d, expected %d", src_error (s), E_PTR); }
					tr ("src_callback_read (ratio=%.17g, frames=%.0f)", r, m); long g; { InCall ic; g = src_callback_read (s, r, m, out.data ()); } cnt.evals++; cnt.trans++; cnt.states++; cnt.nontriv++;
					if (bad_seen)
					{	int code = kind == 1 ? E_PTR : E_OVERLAP;
						if (g) fail ("a read for which the callback supplied %s returned %ld frames", kind == 1 ? "a count without data" : "data inside the output buffer", g);
						if (src_error (s) != code) fail ("a read for which the callback supplied %s records error %d, expected %d", kind == 1 ? "a count without data" : "data inside the output buffer", src_error (s), code);
						break; }
					if (kind != 3 && src_error (s)) fail ("src_callback_read records error %d", src_error (s));
					got.insert (got.end (), out.begin (), out.begin () + g * ch);
					if (g < m) break;
				}
				if (kind == 0) want = got;
				else if (kind == 3) { if (got.size () != want.size () || memcmp (got.data (), want.data (), got.size () * 4)) fail ("reads refused for the missing buffer change the stream that the others return (%zu samples, %zu without them)", got.size (), want.size ()); }
				else if (got.size () > want.size () || memcmp (got.data (), want.data (), got.size () * 4)) fail ("the frames before the unusable data are not those of the stream");
				cnt.traces++; src_delete (s); if (arena->nlive) fail ("%lu blocks left allocated", (unsigned long) arena->nlive);
			}
		}
		sample_trace ("callback with unusable data");
	});
}
void setup_tasks ()
{	log_error = false; property_id = "C12"; bool T = thorough ();
	rule = "A case is one invalid call in one reachable state, followed by all probe continuations when the memory image after it is new; oracle: error code and text of the condition, untouched buffers, and the same continuation without the invalid call.";
	explanation = "Explicit-state search over histories; in every reachable state every invalid call of the matrix (NULL pointers, bad ratios down to the last bit of the limits, every overlapping offset, negative counts, wrong modes) is made. Creation calls are enumerated over all small and boundary converter numbers and channel counts.";
	extra_names = { { "images_after_a_refused_call_probed", 0 } };
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (bool cb : { false, true }) if (conv != MED || ch == 1) insistent (conv, ch, cb);
	creation ();
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) bad_callback_data (conv, ch);
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 128 })
	{	bool sc = is_sinc (conv); if (ch > 3 && conv == MED && !T) continue;
		int D = ch > 7 ? 1 : 2; if (T) D++;
		long a = sc ? 120 : 4;
		hist (conv, ch, false, "histories", {}, { P (a, 30, 1.0), P (a, 1, 2.0), P (1, 9, 0.5), P (a, 100, 0.7, 1), P (0, 3, 1.0, 1), K (SETR, 0.3), K (RESET) }, D);
		if (ch <= 3 || T) hist (conv, ch, true, "histories", {}, { Rd (4, 1.0), Rd (60, 0.5), Rd (900, 2.0), K (SETR, 0.3), K (RESET) }, D + 1);
	}
}
