// C13: running out of memory is reported and nothing leaks.
#include "ops.hpp"
using namespace mc;
static long cb13 (void *u, float **d) { return env_callback (u, d); }
// Fault modes: only allocation i fails; or allocation i and every later one.
static int codes_ok (int e) { return e == 1; }
// Runs f with allocation i failing; returns whether the fault was hit.
template <class F> static bool with_fault (long i, bool all, F f)
{	alloc_attempts = 0; fail_countdown = i;
	if (all) fail_from = i;
	f ();
	bool hit = alloc_attempts > i; fail_countdown = -1; fail_from = -1;
	return hit;
}
static void create_faults (int conv, int ch, int how)	// how: 0 src_new, 1 src_callback_new, 2 src_simple
{	add (str ("%s ch=%d every allocation of %s", conv_name (conv), ch, how == 0 ? "src_new" : how == 1 ? "src_callback_new" : "src_simple"), [=] () {
		Env e; e.init (ch, 3000); e.script.blocks = { 100, 200, 300, 0 }; Src src; env_now = &e; e.reader = &src; bool more = true; long n = 0;
		std::vector<float> in = make_signal (ch, 50), out (200 * ch, 9.f);
		for (long i = 0; more && i < 1000; i++) for (int all = 0; all < 2; all++) for (int noerr = 0; noerr < (how == 2 ? 1 : 2); noerr++)
		{	arena_reset (); statics_restore (); trace_len = 0; int err = 12345; SRC_STATE *s = NULL; std::fill (out.begin (), out.end (), 9.f);
			SRC_DATA d; memset (&d, 0, sizeof d); d.data_in = in.data (); d.data_out = out.data (); d.input_frames = 50; d.output_frames = 100; d.src_ratio = 1.0;
			tr ("the library's allocation number %.0f will fail", i); tr (how == 0 ? "src_new (converter=%.0f, channels=%.0f)" : how == 1 ? "src_callback_new (converter=%.0f, channels=%.0f)" : "src_simple (converter=%.0f, channels=%.0f)", conv, ch);
			bool hit = with_fault (i, all, [&] () { InCall g; if (how == 0) s = src_new (conv, ch, noerr ? NULL : &err); else if (how == 1) s = src_callback_new (cb13, conv, ch, noerr ? NULL : &err, &e); else err = src_simple (&d, conv, ch); });
			cnt.trans++; cnt.evals++; cnt.states++; cnt.nontriv += hit; arena_check ();
			if (!hit)
			{	more = false; n = i;
				if (how != 2 && !s) fail ("creation failed (error %d) though no allocation failed", err);
				if (!noerr && err) fail ("error %d though no allocation failed", err);
				if (s) src_delete (s);
			}
			else
			{	if (how != 2 && s) fail ("allocation %ld failed and a converter was returned", i);
				if (!noerr && !codes_ok (err)) fail ("allocation %ld failed and the error is %d (%s)", i, err, src_strerror (err) ? src_strerror (err) : "no text");
				if (how == 2) for (float v : out) if (v != 9.f) fail ("src_simple ran out of memory and wrote output");
			}
			if (arena->nlive) fail ("%lu blocks (%lu bytes) leaked when allocation %ld failed", (unsigned long) arena->nlive, (unsigned long) arena->live_bytes, i);
			// a later attempt succeeds and works
			if (hit && how != 2) { SRC_STATE *t = make (conv, ch, true); R q = process_ok (t, in.data (), 50, out.data (), 100, 1.0, 1, true); if (q.used != 50) fail ("a converter made after an out-of-memory failure does not work"); src_delete (t); if (arena->nlive) fail ("leak"); }
		}
		if (n < 1 && how < 2) fail ("the library allocated nothing");
		cnt.traces++; if (how == 0) sample_trace ("faults in creation");
	});
}
static void clone_faults (int conv, int ch, bool cb)
{	add (str ("%s ch=%d every allocation of src_clone (%s)", conv_name (conv), ch, cb ? "callback" : "process"), [=] () {
		Env e; e.init (ch); bool sc = is_sinc (conv); e.script.blocks = sc ? std::vector<long> { 100, 200, 50, 0 } : std::vector<long> { 3, 10, 2, 0 };
		std::vector<std::vector<Op>> hists, probes;
		if (!cb) { hists = { {}, { P (sc ? 120 : 5, 7, 0.8) }, { P (sc ? 120 : 5, 400, 0.8, 1) }, { P (3, 1, 1.0), K (SETR, 2.0) } }; probes = { { P (sc ? 150 : 5, 30, 0.7), P (3, 700, 0.7, 1), K (ERRQ) } }; }
		else { hists = { {}, { Rd (3, 1.0) }, { Rd (3, 1.0), Rd (30, 0.5) } }; probes = { { Rd (5, 1.0), Rd (900, 1.0), K (ERRQ) } }; }
		for (auto &h : hists)
		{	bool more = true;
			for (long i = 0; more && i < 1000; i++) for (int all = 0; all < 2; all++) for (int noerr = 0; noerr < 2; noerr++)
			{	arena_reset (); statics_restore (); trace_len = 0; int err = 12345; Src src; env_now = &e; e.reader = &src;
				SRC_STATE *s = cb ? src_callback_new (cb13, conv, ch, &err, &e) : make (conv, ch); if (!s) fail ("cannot create");
				for (auto &o : h) apply (e, s, src, o, NULL);
				Log want; { Image im; im.save (); Src q = src; for (auto &o : probes[0]) apply (e, s, q, o, &want); im.restore (); }
				uint64_t live = arena->nlive; SRC_STATE *c = NULL; err = 12345;
				tr ("src_clone with allocation %.0f failing", i);
				bool hit = with_fault (i, all, [&] () { InCall g; c = src_clone (s, noerr ? NULL : &err); });
				cnt.trans++; cnt.evals++; cnt.states++; cnt.nontriv += hit; arena_check ();
				if (!hit) { more = false; if (!c || (!noerr && err)) fail ("src_clone failed (error %d) though no allocation failed", err); src_delete (c); }
				else { if (c) fail ("allocation %ld failed and src_clone returned a converter", i); if (!noerr && !codes_ok (err)) fail ("allocation %ld failed and src_clone reports %d (%s)", i, err, src_strerror (err) ? src_strerror (err) : "no text"); }
				if (arena->nlive != live) fail ("src_clone with allocation %ld failing left %ld blocks behind", i, (long) (arena->nlive - live));
				Src q = src; Log l; for (auto &o : probes[0]) apply (e, s, q, o, &l);
				compare (want, l, "the original after a failed or deleted clone");
				src_delete (s); if (arena->nlive) fail ("%lu blocks left after src_delete", (unsigned long) arena->nlive);
				cnt.traces++;
			}
		}
	});
}
// All histories of creating, cloning, using and deleting up to 3 converters at a time; in every state everything that is
// alive is deleted in every order and nothing may be left.
static void lifecycles (std::vector<std::pair<int,int>> kinds, int depth, bool faults)
{	std::string nm; for (auto &k : kinds) nm += str (" %s/%d", conv_name (k.first), k.second);
	add (str ("life cycles of up to 3 converters:%s, depth %d%s", nm.c_str (), depth, faults ? ", with failing allocations" : ""), [=] () {
		struct H { SRC_STATE *s; int kind; Src src; bool cb; }; std::vector<Image> img; std::unordered_map<uint64_t, int> seen;
		std::vector<Env> envs (kinds.size ()); for (size_t k = 0; k < kinds.size (); k++) { envs[k].init (kinds[k].second, 8000); envs[k].script.blocks = { 50, 1, 100, 0 }; }
		Image at; trace_len = 0;
		auto delete_all = [&] (std::vector<H> hs)
		{	std::vector<int> perm; for (size_t i = 0; i < hs.size (); i++) perm.push_back (i);
			at.save (); int tl = trace_len;
			do
			{	at.restore (); trace_len = tl;
				for (int i : perm) { tr ("src_delete (converter number %.0f)", i); InCall g; if (src_delete (hs[i].s) != NULL) fail ("src_delete did not return NULL"); }
				arena_check (); cnt.evals++; cnt.trans += perm.size ();
				if (arena->nlive) fail ("%lu blocks (%lu bytes) are still allocated after every converter was deleted", (unsigned long) arena->nlive, (unsigned long) arena->live_bytes);
			} while (std::next_permutation (perm.begin (), perm.end ()));
			cnt.traces++; at.restore (); trace_len = tl;
		};
		std::function<void(int, std::vector<H>)> dfs = [&] (int d, std::vector<H> hs)
		{	while ((int) img.size () <= d) img.emplace_back ();
			img[d].save (); int tl = trace_len;
			delete_all (hs);
			if (d == depth) return;
			auto step = [&] (std::function<bool(std::vector<H> &)> f)
			{	img[d].restore (); trace_len = tl; std::vector<H> h2 = hs;
				if (!f (h2)) return;
				cnt.trans++; arena_check ();
				uint64_t h = state_hash (h2.size ()); for (auto &x : h2) h = mix (h, mix ((uint64_t) x.s, x.src.pos * 7 + x.src.ended));
				auto it = seen.find (h); if (it == seen.end () || it->second > d + 1) { if (it == seen.end ()) { cnt.states++; cnt.nontriv++; } seen[h] = d + 1; dfs (d + 1, h2); }
			};
			if (hs.size () < 3)
			{	for (size_t k = 0; k < kinds.size (); k++) for (int cb = 0; cb < 2; cb++) for (long f = -1; f < (faults ? 3 : 0); f++) step ([&] (std::vector<H> &h) -> bool
				{	int err; SRC_STATE *s = NULL; envs[k].reader = NULL; env_now = &envs[k]; uint64_t live = arena->nlive;
					tr (cb ? "src_callback_new (kind %.0f) with failing allocation %.0f" : "src_new (kind %.0f) with failing allocation %.0f", k, f);
					bool hit = with_fault (f < 0 ? 1 << 30 : f, false, [&] () { InCall g; s = cb ? src_callback_new (cb13, kinds[k].first, kinds[k].second, &err, &envs[k]) : src_new (kinds[k].first, kinds[k].second, &err); });
					if (hit) { if (s) fail ("a failing allocation went unnoticed"); if (arena->nlive != live) fail ("failed creation leaks"); return true; }
					if (!s) fail ("creation failed with error %d", err);
					if (f >= 0) { src_delete (s); return false; }
					h.push_back ({ s, (int) k, Src (), cb != 0 }); return true; });
				for (size_t j = 0; j < hs.size (); j++) for (long f = -1; f < (faults ? 3 : 0); f++) step ([&] (std::vector<H> &h) -> bool
				{	int err; SRC_STATE *s = NULL; uint64_t live = arena->nlive; tr ("src_clone (converter number %.0f) with failing allocation %.0f", j, f);
					bool hit = with_fault (f < 0 ? 1 << 30 : f, false, [&] () { InCall g; s = src_clone (h[j].s, &err); });
					if (hit) { if (s) fail ("a failing allocation went unnoticed"); if (arena->nlive != live) fail ("failed src_clone leaks"); return true; }
					if (!s) fail ("src_clone failed with error %d", err);
					if (f >= 0) { src_delete (s); return false; }
					h.push_back ({ s, h[j].kind, h[j].src, h[j].cb }); return true; });
			}
			for (size_t j = 0; j < hs.size (); j++)
			{	bool sc = is_sinc (kinds[hs[j].kind].first);
				std::vector<Op> ops = hs[j].cb ? std::vector<Op> { Rd (30, 1.0), K (RESET), K (BADREAD) } : std::vector<Op> { P (sc ? 60 : 5, 30, 0.9), P (2, 300, 1.0, 1), K (RESET), K (BADRATIO), Rd (3, 1.0) };
				for (auto &o : ops) step ([&] (std::vector<H> &h) -> bool { apply (envs[h[j].kind], h[j].s, h[j].src, o, NULL); return true; });
				step ([&] (std::vector<H> &h) -> bool { tr ("src_delete (converter number %.0f)", j); { InCall g; if (src_delete (h[j].s) != NULL) fail ("src_delete did not return NULL"); } h.erase (h.begin () + j); return true; });
			}
			img[d].restore (); trace_len = tl;
		};
		dfs (0, {}); sample_trace ("life cycles explored");
	});
}
// Created and deleted over and over, and very many alive at the same time.
static void masses (int conv, int ch, long n)
{	add (str ("%s ch=%d created over and over, %ld at a time", conv_name (conv), ch, n), [=] () {
		Env e; e.init (ch, 2000); int err; tr ("src_new, use, src_clone, src_delete both, over and over (converter %.0f, %.0f channels)", conv, ch); Log want;
		repeat (is_sinc (conv) ? 20000 : 70000, [&] (long k)
		{	SRC_STATE *s, *c; { InCall g; s = src_new (conv, ch, &err); } if (!s) fail ("src_new failed with %d", err); Src q; Log l; apply (e, s, q, P (60, 20, 0.9), &l); { InCall g; c = src_clone (s, &err); } if (!c) fail ("src_clone failed with %d", err);
			if (k == 0) want = l; else compare (want, l, "a converter created after many others"); { InCall g; src_delete (k & 1 ? s : c); src_delete (k & 1 ? c : s); } if (arena->nlive) fail ("%lu blocks are left", (unsigned long) arena->nlive); });
		std::vector<SRC_STATE *> v; trace_len = 0;
		for (long k = 0; k < n; k++) { trace_len = 0; tr ("src_new (converter=%.0f, channels=%.0f) with %.0f others alive", conv, ch, k); InCall g; SRC_STATE *s = k % 3 == 2 ? src_clone (v[k / 2], &err) : src_new (conv, ch, &err); if (!s) fail ("creating a converter with %ld others alive failed with %d", k, err); v.push_back (s); }
		for (long k = 0; k < n; k += std::max (1l, n / 50)) { Src q; Log l; apply (e, v[k], q, P (60, 20, 0.9), &l); compare (want, l, "one of very many converters"); }
		for (int pass = 0; pass < 2; pass++) for (long k = pass; k < n; k += 2) { InCall g; src_delete (v[k]); }	// every other one first
		if (arena->nlive) fail ("%lu blocks are left after all of %ld converters were deleted", (unsigned long) arena->nlive, n);
		cnt.traces++;
	});
}
// Every operation there is, in every order to a depth, then src_delete: whatever was refused, reported or ended before, nothing is left.
static void endings (int conv, int ch, bool cb, std::vector<Op> menu, int depth)
{	add (str ("%s ch=%d %s deleted after every sequence of %d of %zu operations", conv_name (conv), ch, cb ? "callback" : "process", depth, menu.size ()), [=] () {
		Env e; e.init (ch); bool sc = is_sinc (conv); e.script.blocks = sc ? std::vector<long> { 100, 200, 50, 0, 30, -4, 60 } : std::vector<long> { 3, 10, 2, 0, 4, -4, 5 }; std::vector<Image> img; std::unordered_map<uint64_t, int> seen;
		for (int viaclone = 0; viaclone < 2; viaclone++)
		{	arena_reset (); statics_restore (); trace_len = 0; int err; Src src; env_now = &e; e.reader = &src; seen.clear ();
			SRC_STATE *s = cb ? src_callback_new (cb13, conv, ch, &err, &e) : make (conv, ch); if (!s) fail ("cannot create");
			if (viaclone) { SRC_STATE *c = src_clone (s, &err); if (!c) fail ("src_clone failed"); src_delete (s); s = c; tr ("(it is a clone of a converter deleted since)"); }
			std::function<void (int, Src)> dfs = [&] (int d, Src src)
			{	while ((int) img.size () <= d) img.emplace_back ();
				img[d].save (); int tl = trace_len;
				tr ("src_delete"); { InCall g; if (src_delete (s) != NULL) fail ("src_delete did not return NULL"); } arena_check (); cnt.evals++; cnt.trans++; cnt.traces++;
				if (arena->nlive) fail ("%lu blocks (%lu bytes) are still allocated after src_delete", (unsigned long) arena->nlive, (unsigned long) arena->live_bytes);
				if (d < depth) for (auto &o : menu)
				{	img[d].restore (); trace_len = tl; Src q = src; apply (e, s, q, o, NULL);
					uint64_t h = mix (state_hash (q.pos), q.blk * 3 + q.ended); auto it = seen.find (h); if (it != seen.end () && it->second <= d + 1) continue; if (it == seen.end ()) { cnt.states++; cnt.nontriv++; } seen[h] = d + 1; dfs (d + 1, q); }
				img[d].restore (); trace_len = tl; };
			dfs (0, src); src_delete (s); sample_trace ("deleted after every sequence of operations");
		}
	});
}
void setup_tasks ()
{	property_id = "C13"; bool T = thorough ();
	rule = "A case is one API call with one failing allocation (alone, or with all later ones failing too), or one deletion order in one reachable state of a set of converters; non-trivial when the fault was hit.";
	explanation = "Fault-injection exploration: every allocation point of src_new, src_callback_new, src_clone and src_simple fails in turn, in every explored history; the counting allocator of the harness decides leaks, double frees and overruns. Life cycles of up to three converters are explored exhaustively to the stated depth.";
	std::vector<int> chs = { 1, 2, 3, 4, 5, 6, 7, 8, 16, 127, 128 };
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : chs) { if (conv == MED && ch > 16 && !T) continue; for (int how : { 0, 1, 2 }) create_faults (conv, ch, how); for (int cb : { 0, 1 }) if (ch <= 8 || T) clone_faults (conv, ch, cb); }
	for (int conv : { LIN, ZOH }) create_faults (conv, 1000, 0);
	for (int conv : { LIN, ZOH }) for (int ch : { 1, 2, 5 }) masses (conv, ch, 70000);
	for (int ch : { 1, 2, 3, 4, 6 }) masses (FAST, ch, 1100 / ch); masses (MED, 1, 300);
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) for (int cb = 0; cb < 2; cb++)
	{	if (conv == MED && ch > 2 && !T) continue; long a = is_sinc (conv) ? 120 : 5;
		std::vector<Op> m = cb ? std::vector<Op> { Rd (30, 1.0), Rd (300, 0.5), Rd (0, 1.0), Rd (4, 256.0), K (BADREAD), P (a, 9, 1.0), K (SETR, 2.0), K (SETR, -1), K (RESET), K (NULLDATA) }
			: std::vector<Op> { P (a, 30, 0.9), P (2, 300, 1.0, 1), P (0, 0, 1.0), P (0, 9, 256.0, 1), P (a, 3, 1.0 / 256), K (SETR, 2.0), K (SETR, -1), K (RESET), K (BADRATIO), K (OVERLAP), K (NULLDATA), Rd (5, 1.0), K (BADREAD) };
		endings (conv, ch, cb, m, (is_sinc (conv) ? 3 : 4) + (T ? 1 : 0)); }
	lifecycles ({ { LIN, 1 } }, T ? 8 : 7, true);
	lifecycles ({ { ZOH, 2 } }, T ? 8 : 7, true);
	lifecycles ({ { LIN, 3 }, { ZOH, 1 } }, T ? 7 : 6, true);
	for (int ch : { 1, 2, 3, 4, 6 }) lifecycles ({ { FAST, ch } }, T ? 6 : 5, true);
	lifecycles ({ { FAST, 1 }, { LIN, 2 }, { ZOH, 3 } }, T ? 5 : 4, false);
	lifecycles ({ { MED, 1 } }, T ? 5 : 4, false);
}
