// C16: results depend only on the converter's history and the input samples.
// Every call sequence of the menu up to the depth is executed under every environment (fill of new memory, junk on the
// stack, contents of output buffers, addresses and alignments, data around the supplied frames); logs must be bit-identical.
#include "ops.hpp"
using namespace mc;
// What else a result must not depend on: the time of day, processor time, the process, the state of rand () and errno.
static long world;
extern "C" time_t time (time_t *t) noexcept { time_t v = 1600000000 + world * 86399; if (t) *t = v; return v; }
extern "C" clock_t clock () noexcept { return world * 1000003; }
extern "C" pid_t getpid () noexcept { return 1000 + world; }
struct Envr { const char *name; int heap, stack; float outfill; int in_off, out_off, shift; float guard; bool move; int place; };	// place: 1: every block where the stream has it in one long buffer, 2: every block at the same address
static const Envr envs[] = {
	{ "baseline", 0x00, 0x00, 0.0f, 0, 0, 0, 0.0f, false, 0 },
	{ "new memory and stack filled with 0xFF, NaN around", 0xFF, 0xFF, NAN, 0, 0, 0, NAN, true, 0 },
	{ "new memory filled with 0x7F, output full of huge values", 0x7F, 0x7F, 1e30f, 1, 0, 0, 1e30f, true, 0 },
	{ "new memory filled with 0xA5, output full of -1", 0xA5, 0x5A, -1.0f, 0, 1, 24, INFINITY, true, 0 },
	{ "misaligned buffers", 0x3F, 0x3F, 0.5f, 3, 5, 1, NAN, true, 0 },
	{ "other addresses", 0x01, 0x80, NAN, 7, 2, 4096 + 8, -INFINITY, true, 0 },
	{ "small positive floats everywhere", 0x3D, 0x3D, 0.046f, 2, 3, 100, 0.046f, true, 0 },
	{ "blocks side by side in one buffer, used frames overwritten", 0x3F, 0x3F, 0.25f, 0, 0, 40, 0.7f, true, 1 },
	{ "all blocks at one address", 0xC5, 0x3F, 0.25f, 0, 0, 40, -9.5f, true, 2 },
};
enum { NENV = sizeof envs / sizeof *envs, REGION = 1 << 16 };
static void __attribute__ ((noinline)) smash (int v) { volatile char b[40000]; for (size_t i = 0; i < sizeof b; i += 1) b[i] = (char) v; }
enum { CLONE = 100, CLONEDEL, SIMPLE };	// CLONE: the clone goes on, the original stays around; CLONEDEL: the original is deleted first
struct Runner {
	int conv, ch; bool cb; const Envr *e; std::vector<float> x; std::vector<long> script; Log log;
	SRC_STATE *s; long pos; int blk; std::vector<float> inbuf[2], place; int which = 0; float *inblk = NULL; long insize = 0; bool ended; float *reg = NULL; size_t regn = 0;	// reg: the block and its surroundings
	struct Out { std::vector<float> all; float *p; long n; std::vector<float> copy; }; std::vector<Out *> outs;
	std::vector<SRC_STATE *> others;
	float *supply (long n)	// a copy of the next n frames, guarded
	{	if (e->place)
		{	size_t off = 600 + (e->place == 1 ? pos * ch : 0); if (place.size () < x.size () + 1200) place.assign (x.size () + 1200, e->guard);
			if (reg) std::fill (reg, reg + regn, e->guard);
			inblk = place.data () + off; insize = n; reg = inblk - 600; regn = n * ch + 1200; if (off + n * ch + 600 > place.size ()) fail ("internal: stream too short");
			std::copy (x.begin () + pos * ch, x.begin () + (pos + n) * ch, inblk); return inblk;
		}
		which ^= 1; std::vector<float> &b = inbuf[which]; size_t need = n * ch + 2 * 600 + 16;
		if (e->move && blk % 2) need += 777;
		std::vector<float> nb (need, e->guard); b.swap (nb);	// a new address
		size_t off = 600; while (((uintptr_t) (b.data () + off) / 4) % 8 != (size_t) e->in_off) off++;
		std::copy (x.begin () + pos * ch, x.begin () + (pos + n) * ch, b.begin () + off);
		inblk = b.data () + off; insize = n; reg = b.data (); regn = b.size (); return inblk;
	}
	float *room (long m) { Out *o = new Out; o->all.assign (m * ch + 64, e->outfill); size_t off = 16; while (((uintptr_t) (o->all.data () + off) / 4) % 8 != (size_t) e->out_off) off++; o->p = o->all.data () + off; o->n = m * ch; outs.push_back (o); return o->p; }
	void close_out (long g)
	{	Out *o = outs.back (); float f = e->outfill;
		for (size_t i = 0; i < o->all.size (); i++) { float *p = &o->all[i]; if (p >= o->p && p < o->p + g * ch) continue; if (memcmp (p, &f, 4)) fail ("a call that returned %ld frames changed the output buffer at float %ld", g, (long) (p - o->p)); }
		o->copy = o->all;
	}
	void check_old () { for (size_t k = 0; k < outs.size (); k++) if (memcmp (outs[k]->copy.data (), outs[k]->all.data (), outs[k]->all.size () * 4)) fail ("the output of an earlier call (number %zu) was modified by a later call", k); }
	static long cbk (void *u, float **d)
	{	Runner *r = (Runner *) u; smash (r->e->stack); long n = r->blk < (int) r->script.size () ? r->script[r->blk] : 0; r->blk++;
		if (!n) { return 0; }	// the pointer is left alone
		*d = r->supply (n); r->pos += n; return n; }
	void op (const Op &o)
	{	cnt.trans++; alarm_op (o);
		smash (e->stack);
		switch (o.kind)
		{	case PROC: { const float *in = supply (o.n); blk++; std::vector<float> keep (reg, reg + regn); float *out = room (o.m); R q = process (s, in, o.n, out, o.m, o.r, o.eof); log.i (q.err); if (!q.err) { log.i (q.used); log.i (q.gen); log.f (out, q.gen * ch); pos += q.used; } close_out (q.err ? 0 : q.gen); if (memcmp (keep.data (), reg, regn * 4)) fail ("the call changed its input"); std::fill (reg, reg + regn, e->place ? e->guard : NAN); break; }
			case READ: { float *out = room (o.m); long g; { InCall ic; g = src_callback_read (s, o.r, o.m, out); } log.i (g); log.i (src_error (s)); log.i (pos); log.f (out, g * ch); close_out (g); break; }
			case SETR: log.i (src_set_ratio (s, o.r)); break;
			case RESET: log.i (src_reset (s)); break;
			case CLONE: { int err; SRC_STATE *c = src_clone (s, &err); if (!c) fail ("src_clone failed"); others.push_back (s); s = c; break; }
			case CLONEDEL: { int err; SRC_STATE *c = src_clone (s, &err); if (!c) fail ("src_clone failed"); src_delete (s); s = c; break; }
			case SIMPLE: { const float *in = supply (o.n); float *out = room (o.m); SRC_DATA d; memset (&d, e->stack, sizeof d); d.data_in = in; d.data_out = out; d.input_frames = o.n; d.output_frames = o.m; d.src_ratio = o.r; int er; { InCall ic; er = src_simple (&d, conv, ch); } log.i (er); log.i (d.input_frames_used); log.i (d.output_frames_gen); log.f (out, d.output_frames_gen * ch); close_out (d.output_frames_gen); break; }
			case BADRATIO: { R q = process (s, x.data (), 4, (float *) x.data () + 4 * ch, 0, 1e9, 0, true); log.i (q.err); break; }
		}
		log.i (src_error (s)); log.i (src_get_channels (s)); check_old (); arena_check ();
	}
	void alarm_op (const Op &o)
	{	switch (o.kind) { case READ: tr ("src_callback_read (ratio=%.17g, frames=%.0f)", o.r, o.m); break; case SETR: tr ("src_set_ratio (%.17g)", o.r); break; case RESET: tr ("src_reset ()"); break; case CLONE: tr ("src_clone (), going on with the clone"); break; case CLONEDEL: tr ("src_clone (), original deleted, going on with the clone"); break; case SIMPLE: tr ("src_simple (input_frames=%.0f, output_frames=%.0f, ratio=%g)", o.n, o.m, o.r); break; default: break; } }
	void run (const std::vector<Op> &ops)
	{	arena_reset (); statics_restore (); fill_byte = (uint8_t) e->heap; log = Log (); pos = 0; blk = 0; which = 0; ended = false; reg = NULL; place.clear (); trace_len = 0;
		if (e->shift) mc_malloc (e->shift);
		world = e - envs; srand (world * 7919 + 1); errno = world ? EINVAL : 0;
		int err = 0x55; smash (e->stack); tr (cb ? "src_callback_new (converter=%.0f, channels=%.0f)" : "src_new (converter=%.0f, channels=%.0f)", conv, ch);
		s = cb ? src_callback_new (cbk, conv, ch, &err, this) : src_new (conv, ch, &err); log.i (err); if (!s) fail ("cannot create"); log.i (src_error (s)); log.i (src_get_channels (s));
		for (auto &o : ops) op (o);
		src_delete (s); for (auto q : others) src_delete (q); others.clear ();
		check_old (); for (auto o : outs) delete o; outs.clear ();
		cnt.traces++;
	}
};
static void all_histories (int conv, int ch, bool cb, std::vector<Op> prefix, std::vector<Op> menu, int depth, const char *nm)
{	add (str ("%s ch=%d %s %s depth=%d", conv_name (conv), ch, cb ? "callback" : "process", nm, depth), [=] () {
		Runner r; r.conv = conv; r.ch = ch; r.cb = cb; r.x = make_signal (ch, 60000); bool sc = is_sinc (conv);
		r.script = sc ? std::vector<long> { 100, 1, 50, 200, 3, 90, 0 } : std::vector<long> { 3, 1, 10, 2, 30, 0 };
		std::vector<Op> tail = cb ? std::vector<Op> { Rd (20, 1.0), Rd (2000, 1.0) } : std::vector<Op> { P (sc ? 70 : 4, 25, 0.9), P (3, 700, 0.9, 1) };
		long n = 1; for (int k = 0; k < depth; k++) n *= menu.size ();
		for (long code = 0; code < n; code++)
		{	std::vector<Op> ops = prefix; long t = code; for (int k = 0; k < depth; k++) { ops.push_back (menu[t % menu.size ()]); t /= menu.size (); }
			ops.insert (ops.end (), tail.begin (), tail.end ());
			Log base;
			for (int e = 0; e < NENV; e++)
			{	r.e = &envs[e]; r.run (ops); cnt.states++; cnt.nontriv++;
				if (e == 0) base = r.log;
				else compare (base, r.log, str ("environment '%s' against the baseline environment", envs[e].name).c_str ());
			}
			if (code == n / 2) sample_trace ("one history, in the last environment");
		}
	});
}
// The array conversions: every value of the list (all half-way cases of a short included) at every alignment of both arrays and
// every position relative to the start, the surroundings filled differently each time; results must be those of the first run.
template <class A, class O> static void formats (const char *name, void (*f) (const A *, O *, int), std::vector<A> vals, int len)
{	add (str ("%s at all alignments, %d at a time", name, len), [=] () {
		std::vector<O> ref (vals.size ()); bool first = len > 1; long n = vals.size ();
		if (!first) for (long k = 0; k < n; k++) f (&vals[k], &ref[k], 1);
		std::vector<char> ib (len * sizeof (A) + 256), ob (len * sizeof (O) + 256);
		for (int e = 0; e < 3; e++) for (int ia = 0; ia < 64; ia += sizeof (A)) for (int oa = 0; oa < 64; oa += sizeof (O))
		{	if ((ia % 16) && (oa % 16) && ia != oa) continue;
			trace_len = 0; tr ("array conversion, input address %.0f bytes and output address %.0f bytes after a multiple of 64, environment %.0f", ia, oa, e);
			char *a = (char *) (((uintptr_t) ib.data () + 127) & ~(uintptr_t) 63) + ia, *o = (char *) (((uintptr_t) ob.data () + 127) & ~(uintptr_t) 63) + oa;
			long step = len; if (len == 1) step = 41;	// with one element a call, a part of the values at every alignment
			for (long k = len == 1 ? (ia / sizeof (A) + oa) % 41 : 0; k < n; k += step)
			{	long m = std::min<long> (len, n - k); memset (ib.data (), e == 0 ? 0 : e == 1 ? 0xFF : 0x3D, ib.size ()); memset (ob.data (), e == 0 ? 0 : e == 1 ? 0xFF : 0xA5, ob.size ());
				memcpy (a, &vals[k], m * sizeof (A)); if (e) smash (e == 1 ? 0xFF : 0x3D);
				{ InCall g; f ((const A *) a, (O *) o, (int) m); }
				if (memcmp (a, &vals[k], m * sizeof (A))) fail ("%s changed its input", name);
				for (long j = 0; j < m; j++) { O v; memcpy (&v, o + j * sizeof (O), sizeof v); if (first) { ref[k + j] = v; continue; }
					if (memcmp (&v, &ref[k + j], sizeof v)) { double in = (double) vals[k + j]; fail ("%s converts %.17g to %.17g here and to %.17g with other addresses or surroundings", name, in, (double) v, (double) ref[k + j]); } }
				cnt.trans++; cnt.states += m; cnt.nontriv += m; cnt.evals += m;
			}
			first = false;
		}
		cnt.traces++;
	});
}
void setup_tasks ()
{	property_id = "C16"; bool T = thorough ();
	rule = "A case is one call sequence executed in one environment; the log of results, counts, error codes and samples is compared bit for bit with the baseline environment.";
	explanation = "Exhaustive enumeration of call sequences up to the depth, each under every environment of the list, on the real code. Input blocks are copied to new addresses for every call, surrounded by guard values and destroyed after use; outputs of earlier calls are checked for modification after every call.";
	std::vector<float> fv; std::vector<int> iv; std::vector<short> sv;
	for (int k = -66000; k <= 66000; k += T ? 1 : 3) fv.push_back ((k + (k & 1 ? 0.5f : 0.0f)) / 65536);	// multiples and half-way values of 1/32768
	for (int k = -33000; k <= 33000; k += T ? 1 : 5) { fv.push_back ((k + 0.5f) / 32768); fv.push_back (nextafterf ((k + 0.5f) / 32768, 0)); fv.push_back (nextafterf ((k + 0.5f) / 32768, 9)); }
	for (int k = -300; k <= 300; k++) { fv.push_back ((k + 0.5f) / 2147483648.f); fv.push_back (k * 0.0101f); }
	for (float f : { INFINITY, -INFINITY, 1e30f, -1e30f, 1.0f, -1.0f, 1e-40f, -1e-40f, -0.0f }) fv.push_back (f);
	for (int k = -32768; k <= 32767; k += T ? 1 : 3) sv.push_back (k);
	for (long k = INT_MIN; k <= INT_MAX; k += T ? 99991 : 299993) { iv.push_back ((int) k); } for (int k = 0; k < 31; k++) for (int d = -2; d <= 2; d++) { iv.push_back ((int) ((1u << k) + d)); iv.push_back (-(int) ((1u << k) + d)); iv.push_back ((int) ((1u << 24) + (1u << k) / 2 * d)); }
	for (int len : { 1, 5, 67, 256 })
	{	formats<float, short> ("src_float_to_short_array", src_float_to_short_array, fv, len); formats<float, int> ("src_float_to_int_array", src_float_to_int_array, fv, len);
		formats<short, float> ("src_short_to_float_array", src_short_to_float_array, sv, len); formats<int, float> ("src_int_to_float_array", src_int_to_float_array, iv, len);
	}
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8, 16, 128 })
	{	bool sc = is_sinc (conv); if (conv == MED && ch > 3 && !T) continue;
		int D = ch > 8 ? 1 : sc ? (conv == FAST && ch <= 4 ? 3 : 2) : 3; if (T && ch <= 8) D++;
		long a = sc ? 80 : 5; Op cl = K (CLONE), cd = K (CLONEDEL), si = P (a, 40, 1.1); si.kind = SIMPLE;
		all_histories (conv, ch, false, {}, { P (a, 30, 1.0), P (1, 1, 0.6), P (0, 9, 0.6), P (a, 60, 2.0), P (2, 500, 0.7, 1), K (SETR, 0.4), K (RESET), cl, cd, si, P (a, 0, 1.0) }, D, "histories");
		if (ch <= 8) all_histories (conv, ch, true, {}, { Rd (4, 1.0), Rd (60, 0.5), Rd (1, 2.0), Rd (700, 1.0), K (SETR, 0.4), K (RESET), cl, cd }, D, "histories");
		if (!sc && ch <= 8) all_histories (conv, ch, false, {}, { P (300, 2, 1.0 / 256), P (a, 50, 1.0), P (3, 200, 256.0), P (a, 4, 0.01), P (1, 120, 111.3), K (SETR, 200.5) }, T ? 4 : 3, "extreme ratios");
		if (sc && ch <= 8)
		{	long H = lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1);
			for (long d : { -40, 0 }) all_histories (conv, ch, false, { P (2 * H, 2 * H + 9, 1.0), P (2 * H + d, 2 * H + 9, 1.0) }, { P (60, 80, 1.0), P (9, 30, 0.3), P (30, 100, 1.0, 1), cd, K (RESET) }, T ? 3 : 2, "at the wrap");
			all_histories (conv, ch, false, {}, { P (H + 100, 3, 1.0 / 256), P (a, 50, 1.0), P (3, 200, 256.0), P (a, 4, 0.01, 1) }, 2, "extreme ratios");
		}
	}
}
