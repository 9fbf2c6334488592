// C18: introspection functions agree with what the library does.
#include "ops.hpp"
using namespace mc;
static std::vector<int> corner_ints ()
{	std::vector<int> v; for (int i = -70000; i <= 70000; i++) v.push_back (i);
	for (int b = 17; b < 32; b++) for (int d = -2; d <= 2; d++) { uint32_t x = (1u << b) + d; v.push_back ((int) x); v.push_back ((int) (0u - x)); }
	v.push_back (INT_MAX); v.push_back (INT_MIN); return v;
}
static bool creatable (int c)
{	int e = -7; SRC_STATE *s; { InCall g; s = src_new (c, 1, &e); }
	if (s) { if (e) fail ("src_new (%d) succeeded with error %d", c, e); src_delete (s); return true; }
	if (e != 10) fail ("src_new (%d, 1) failed with error %d, not with that of a bad converter number", c, e);
	return false;
}
static void lookups (uint32_t part, uint32_t parts)
{	add (str ("all ints, part %u of %u", part, parts), [=] () {
		uint64_t per = (1ull << 32) / parts;
		const char *nm[8], *ds[8], *er[64]; for (int c = 0; c < 8; c++) { nm[c] = src_get_name (c); ds[c] = src_get_description (c); } for (int e = 0; e < 64; e++) er[e] = src_strerror (e);
		for (uint64_t u = per * part; u < per * (part + 1); u++)
		{	int k = (int) (uint32_t) u; const char *a, *b, *t, *a2;
			opseq = opseq + 1; a = src_get_name (k); b = src_get_description (k); t = src_strerror (k); a2 = src_get_name (k);
			if (!a != !b) fail ("converter %d has %s name and %s description", k, a ? "a" : "no", b ? "a" : "no");
			if (a != a2 && (!a || !a2 || strcmp (a, a2))) fail ("src_get_name (%d) is not constant", k);
			if (k < 0 || k > 4) { if (a) fail ("converter number %d, which does not exist, has the name '%s'", k, a); }
			else if (a != nm[k] && (!a || !nm[k] || strcmp (a, nm[k]))) fail ("src_get_name (%d) is not constant", k);
			if (k < 0 || k >= 64) { if (t) fail ("src_strerror (%d) has the text '%s'", k, t); }
			else if (t != er[k] && (!t || !er[k] || strcmp (t, er[k]))) fail ("src_strerror (%d) is not constant", k);
		}
		cnt.evals += per * 4; cnt.states += per; cnt.trans += per * 4; cnt.ops += per * 4; cnt.nontriv += per; (void) ds;
	});
}
static void names ()
{	add ("names, descriptions, error texts and src_new", [] () {
		for (int k : corner_ints ())
		{	bool c = creatable (k); cnt.trans++; cnt.evals++; arena_reset ();
			if (c && !src_get_name (k)) fail ("src_new accepts converter %d, which has no name", k);
			if (!c && k >= 1 && k <= 4) fail ("src_new refuses converter %d", k);
			if (c && (k < 0 || k > 4)) fail ("src_new accepts converter %d", k);
		}
		std::vector<std::pair<const char *, std::string>> held;	// texts that are held while others are asked for
		for (int round = 0; round < 2; round++)
		{	for (int k = -3; k < 70; k++) for (const char *t : { src_get_name (k), src_get_description (k), src_strerror (k) }) if (t) held.push_back ({ t, t });
			held.push_back ({ src_get_version (), src_get_version () });
			for (auto &h : held) { cnt.evals++; if (h.second != h.first) fail ("the text '%s' became '%s' when other texts were asked for", h.second.c_str (), h.first); }
		}
		std::vector<std::string> seen;
		for (int k = 0; k < 5; k++)
		{	const char *n = src_get_name (k), *d = src_get_description (k);
			if (!n && creatable (k)) fail ("no name for converter %d", k);
			if (!n) continue;
			if (!*n || !d || !*d) fail ("empty name or description for converter %d", k);
			for (auto &s : seen) if (s == n) fail ("two converters have the name '%s'", n);
			seen.push_back (n);
		}
		int last = -1; std::vector<std::string> texts;
		for (int e = 0; e < 64; e++)
		{	const char *t = src_strerror (e); if (!t) continue;
			if (last != e - 1) fail ("src_strerror has no text for %d but one for %d", last + 1, e);
			last = e; if (!*t) fail ("the text for error %d is empty", e);
			for (auto &s : texts) if (s == t) fail ("error %d has the text of another error: '%s'", e, t);
			texts.push_back (t); cnt.evals++;
		}
		if (last < 22) fail ("src_strerror has no text beyond error %d", last);
		// the text of an error must describe it: the word is one no correct text could avoid
		struct { int e; const char *w[4]; } words[] = { { 0, { "o error" } }, { 1, { "alloc", "emory" } }, { 2, { "STATE", "tate" } }, { 3, { "DATA", "ata" } }, { 4, { "data_in", "data_out", "NULL" } }, { 6, { "atio" } }, { 10, { "onverter" } }, { 11, { "hannel" } }, { 16, { "verlap" } }, { 17, { "allback" } }, { 18, { "mode", "Mode" } }, { 19, { "allback" } } };
		for (auto &w : words) { bool ok = false; for (auto x : w.w) if (x && strstr (src_strerror (w.e), x)) ok = true; if (!ok) fail ("the text of error %d is '%s'", w.e, src_strerror (w.e)); cnt.evals++; }
		const char *v = src_get_version (); if (!v || strncmp (v, "libsamplerate-", 14)) fail ("src_get_version returned '%s'", v ? v : "(null)");
		cnt.traces++; tr ("src_new, src_get_name, src_get_description over %.0f ints", (double) corner_ints ().size ()); sample_trace ("converter numbers");
	});
}
static double dbits (uint64_t u) { double d; memcpy (&d, &u, 8); return d; }
static uint64_t bitsd (double d) { uint64_t u; memcpy (&u, &d, 8); return u; }
static bool legal (double r) { return r >= 1.0 / 256 && r <= 256.0; }
// Is r accepted the same everywhere?
static void ratio_everywhere (double r, SRC_STATE *p, SRC_STATE *c, Src &src, Env &e, const Image &fresh)
{	fresh.restore (); trace_len = 0; tr ("ratio %.17g (%a)", r, r);
	bool want = legal (r); float out[8], in[4] = { 0, 0, 0, 0 }; int v;
	{ InCall g; v = src_is_valid_ratio (r); }
	if (!!v != want) fail ("src_is_valid_ratio (%.17g = %a) returned %d", r, r, v);
	if (v != 0 && v != 1) fail ("src_is_valid_ratio (%.17g) returned %d", r, v);
	SRC_DATA d; memset (&d, 0, sizeof d); d.data_in = in; d.data_out = out; d.input_frames = 2; d.output_frames = 2; d.src_ratio = r;
	int q; { InCall g; q = src_process (p, &d); } if (q != (want ? 0 : 6)) fail ("src_process with ratio %.17g = %a returned %d; src_is_valid_ratio says %d", r, r, q, v);
	fresh.restore (); { InCall g; q = src_set_ratio (p, r); } if (q != (want ? 0 : 6)) fail ("src_set_ratio (%.17g = %a) returned %d; src_is_valid_ratio says %d", r, r, q, v);
	// also when the converter already has a ratio
	fresh.restore (); src_set_ratio (p, 1.5); { InCall g; q = src_process (p, &d); } if (q != (want ? 0 : 6)) fail ("src_process with ratio %.17g = %a after src_set_ratio (1.5) returned %d", r, r, q);
	fresh.restore (); env_now = &e; e.reader = &src; src = Src (); e.out.resize (64); long g;
	{ InCall ic; g = src_callback_read (c, r, 1, e.out.data ()); }
	if (src_error (c) != (want ? 0 : 6) || (!want && g)) fail ("src_callback_read with ratio %.17g = %a returned %ld with src_error %d; src_is_valid_ratio says %d", r, r, g, src_error (c), v);
	if (!want && src.blk) fail ("src_callback_read with the invalid ratio %.17g called the callback", r);
	{ InCall ic; q = src_set_ratio (c, r); } if (q != (want ? 0 : 6)) fail ("src_set_ratio (%.17g) in callback mode returned %d", r, q);
	cnt.evals += 6; cnt.trans += 6; cnt.states++; cnt.nontriv++;
}
static void ratios (int conv)
{	add (str ("ratio limits, %s", conv_name (conv)), [=] () {
		Env e; e.init (1, 1000); e.script.blocks = { 300, 300 }; Src src; int err;
		SRC_STATE *p = make (conv, 1); env_now = &e; e.reader = &src; SRC_STATE *c = src_callback_new (env_callback, conv, 1, &err, &e); if (!c) fail ("src_callback_new failed");
		Image fresh; fresh.save ();
		auto t = [&] (double r) { ratio_everywhere (r, p, c, src, e, fresh); };
		long U = is_sinc (conv) ? 300 : 3000;
		for (double x : { 1.0 / 256, 256.0, 0.0, 1.0, -1.0 / 256, -256.0 }) for (long k = -U; k <= U; k++) { uint64_t b = bitsd (x); if (x == 0 && k < 0) continue; t (dbits (b + k)); }
		// every exponent and sign with several mantissas: zeros, infinities and NaNs included
		for (uint64_t ex = 0; ex < 4096; ex++) for (uint64_t m : { 0ull, 1ull, 0x8000000000000ull, 0xfffffffffffffull, 0x5555555555555ull }) t (dbits (ex << 52 | m));
		cnt.traces++; sample_trace ("one ratio of the list");
	});
	if (conv == LIN) for (int part = 0; part < 8; part++) add (str ("src_is_valid_ratio around the limits, part %d", part), [=] () {
		long N = thorough () ? 400000000 : 20000000;
		for (double x : { 1.0 / 256, 256.0 }) for (long k = N / 4 * (part - 4); k < N / 4 * (part - 3); k++) { double r = dbits (bitsd (x) + k); opseq = opseq + 1; if ((src_is_valid_ratio (r) != 0) != legal (r)) fail ("src_is_valid_ratio (%.17g = %a) is wrong", r, r); }
		cnt.evals += N / 2; cnt.states += N / 2; cnt.trans += N / 2; cnt.nontriv += N / 2;
	});
}
static void channels (int conv)
{	add (str ("channel counts, %s", conv_name (conv)), [=] () {
		if (src_get_channels (NULL) >= 0) fail ("src_get_channels (NULL) returned %d", src_get_channels (NULL));
		if (src_error (NULL) < 0) fail ("src_error (NULL) returned %d", src_error (NULL));
		std::vector<int> chs; for (int c = 1; c <= (conv == MED ? 8 : 300); c++) chs.push_back (c); for (int c : { 16, 64, 127, 128, 129, 512, 1000, 1024, 4096, 65535, 65536, 1 << 20, 10000000 }) chs.push_back (c);
		for (int ch : chs) for (int cb = 0; cb < 2; cb++)
		{	arena_reset (); statics_restore (); trace_len = 0; int e = -7; Env v; v.init (1, 10); v.script.blocks = {}; Src src; env_now = &v; v.reader = &src;
			tr (cb ? "src_callback_new (converter=%.0f, channels=%.0f)" : "src_new (converter=%.0f, channels=%.0f)", conv, ch);
			SRC_STATE *s; { InCall g; s = cb ? src_callback_new (env_callback, conv, ch, &e, &v) : src_new (conv, ch, &e); }
			cnt.trans++; cnt.evals++;
			if (!s) { if (is_sinc (conv) && ch > 128 && e == 11) continue; if (e == 1 && ch >= 10000000) continue; fail ("%d channels are refused with error %d", ch, e); }
			auto same = [&] (SRC_STATE *x, const char *when) { cnt.evals++; if (src_get_channels (x) != ch) fail ("%s: src_get_channels returns %d for a converter of %d channels", when, src_get_channels (x), ch); if (src_error (x)) fail ("%s: src_error is %d", when, src_error (x)); };
			same (s, "after creation");
			if (ch <= 4096 && !cb) { std::vector<float> in (ch * 20), out (ch * 40 + 1); process_ok (s, in.data (), 20, out.data (), 30, 1.3, 0); same (s, "after src_process"); process_ok (s, in.data (), 10, out.data (), 40, 0.7, 1); same (s, "at the end"); }
			src_set_ratio (s, 0.5); same (s, "after src_set_ratio"); int ce; SRC_STATE *c = src_clone (s, &ce); if (!c) { if (ce == 1 && ch >= 1000000) { src_delete (s); continue; } fail ("src_clone failed"); } same (c, "clone"); src_delete (s); same (c, "clone after the original was deleted"); src_reset (c); same (c, "after src_reset"); src_delete (c);
			cnt.states++; cnt.nontriv++;
		}
		cnt.traces++;
	});
}
// src_error as a function of the history: the last error a failed call recorded; zero for new and reset converters.
static void errors (int conv, bool cb)
{	add (str ("src_error, %s, %s", conv_name (conv), cb ? "callback" : "process"), [=] () {
		Env e; e.init (1, 5000); e.script.blocks = { 40, 7, 0 }; int err; Src src; env_now = &e; e.reader = &src; trace_len = 0;
		SRC_STATE *s; { InCall g; s = cb ? src_callback_new (env_callback, conv, 1, &err, &e) : src_new (conv, 1, &err); } if (!s) fail ("creation failed");
		std::vector<float> out (5000); std::vector<Image> img; int D = thorough () ? 7 : 5;
		std::unordered_map<uint64_t, int> seen;
		std::function<void(int, int, Src, bool)> dfs = [&] (int d, int must, Src q, bool any)	// must: what src_error has to be (any: or an older one)
		{	while ((int) img.size () <= d) img.emplace_back ();
			img[d].save (); int tl = trace_len; int got = src_error (s); cnt.evals++;
			if (got != must && !any) fail ("src_error returns %d, expected %d", got, must);
			if (got && !src_strerror (got)) fail ("src_error returns %d, which has no text", got);
			if (d == D) return;
			for (int op = 0; op < 9; op++)
			{	img[d].restore (); trace_len = tl; src = q; env_now = &e; e.reader = &src; int m2 = must; bool a2 = any; cnt.trans++;
				switch (op)
				{	case 0: tr ("src_callback_read (ratio=1, frames=20)"); { InCall g; long r = src_callback_read (s, 1.0, 20, out.data ()); if (!cb) { if (r) fail ("a read on a process converter returned %ld", r); m2 = 18; a2 = false; } else if (src_error (s) == must) ; else if (src_error (s) == 0) m2 = 0; else if (!src.ended) fail ("a successful read set src_error to %d", src_error (s)); else { m2 = src_error (s); } } break;
					case 1: tr ("src_callback_read (ratio=1000, frames=20)"); { InCall g; if (src_callback_read (s, 1000.0, 20, out.data ())) fail ("accepted"); } if (cb) m2 = 6; else { m2 = src_error (s); if (m2 != 18 && m2 != 6) fail ("src_error is %d after a doubly wrong call", m2); } a2 = false; break;
					case 2: tr ("src_reset"); { InCall g; if (src_reset (s)) fail ("src_reset failed"); } src.ended = false; m2 = 0; a2 = false; break;
					case 3: { SRC_DATA z; memset (&z, 0, sizeof z); z.data_in = out.data () + 3000; z.data_out = out.data (); z.input_frames = 30; z.output_frames = 20; z.src_ratio = 1.1; tr ("src_process (30 frames)"); InCall g; int r = src_process (s, &z); if (cb && r != 18) fail ("src_process on a callback converter returned %d", r); if (!cb && r) fail ("src_process returned %d", r); if (r && src_error (s) == r) m2 = r; if (!r && src_error (s) == 0) m2 = 0; } break;
					case 4: { SRC_DATA z; memset (&z, 0, sizeof z); z.data_in = out.data () + 3000; z.data_out = out.data (); z.input_frames = 30; z.output_frames = 20; z.src_ratio = NAN; tr ("src_process (ratio NaN)"); InCall g; int r = src_process (s, &z); if (!r) fail ("accepted"); if (src_error (s) == r) m2 = r; } break;
					case 5: tr ("src_set_ratio (0)"); { InCall g; int r = src_set_ratio (s, 0.0); if (r != 6) fail ("src_set_ratio (0) returned %d", r); if (src_error (s) == r) m2 = r; } break;
					case 6: tr ("src_callback_read (frames=0)"); { InCall g; if (src_callback_read (s, 1.0, 0, out.data ())) fail ("zero frames asked, some returned"); } if (!cb && src_error (s) == 18) m2 = 18; break;
					case 7: { int ce; tr ("src_clone"); SRC_STATE *c; { InCall g; c = src_clone (s, &ce); } if (!c) fail ("src_clone failed"); if (src_error (c) != src_error (s) && src_error (c)) fail ("the clone has src_error %d, the original %d", src_error (c), src_error (s)); src_delete (c); } break;
					case 8: tr ("src_set_ratio (0.9)"); { InCall g; int r = src_set_ratio (s, 0.9); if (r) fail ("src_set_ratio (0.9) returned %d", r); } break;
				}
				uint64_t h = mix (state_hash (m2 * 2 + a2), mix (src.pos, src.blk * 2 + src.ended));
				auto it = seen.find (h); if (it != seen.end () && it->second <= d + 1) continue;
				if (it == seen.end ()) { cnt.states++; cnt.nontriv += m2 != 0; }
				seen[h] = d + 1; dfs (d + 1, m2, src, a2);
			}
			img[d].restore (); trace_len = tl;
		};
		dfs (0, 0, Src (), false); cnt.traces++;
	});
}
void setup_tasks ()
{	property_id = "C18";
	rule = "A case is one argument value of one function, or one call in one reachable state; non-trivial when it is a valid argument of a real converter.";
	explanation = "Complete enumeration of all 2^32 arguments of the lookup functions, of all doubles in neighbourhoods of the ratio limits and of every exponent for the ratio tests, and of call sequences for src_error.";
	names ();
	for (int p = 0; p < 32; p++) lookups (p, 32);
	for (int c : { LIN, ZOH, FAST, MED }) { ratios (c); channels (c); errors (c, false); errors (c, true); }
}
