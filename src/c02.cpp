// C02: calls stay inside the caller's buffers and inside the library's own memory.
// Built with AddressSanitizer and UndefinedBehaviourSanitizer.  All call histories over a menu up to a depth; every buffer
// handed to the library is a heap block of exactly the promised size, so any access outside of it is reported.
#include "ref.hpp"
using namespace mc;

struct Op { int kind; long n, m; double r; int eof; };	// kind 0 process, 1 set_ratio, 2 reset, 3 clone-and-continue
struct Hist {
	int conv, ch; std::vector<Op> menu; int depth; long nodes = 0;
	struct Buf { float *p; Buf (long n) { p = (float *) malloc (n > 0 ? n * sizeof (float) : 0); } ~Buf () { free (p); } };
	void call (SRC_STATE *s, const Op &o, long &pos, bool &eof)
	{	Buf in (o.n * ch), out (o.m * ch);
		for (long k = 0; k < o.n * ch; k++) in.p[k] = sig (k % ch, pos + k / ch);
		uint64_t h = 0; for (long k = 0; k < o.n * ch; k++) { uint32_t u; memcpy (&u, in.p + k, 4); h = h * 31 + u; }
		R q = process (s, in.p, o.n, out.p, o.m, o.r, o.eof); cnt.trans++;
		if (q.err) fail ("src_process returned error %d (%s) for a valid call", q.err, src_strerror (q.err));
		uint64_t h2 = 0; for (long k = 0; k < o.n * ch; k++) { uint32_t u; memcpy (&u, in.p + k, 4); h2 = h2 * 31 + u; }
		if (h != h2) fail ("src_process modified its input");
		volatile float sink = 0; for (long k = 0; k < q.gen * ch; k++) { if (!(fabs (out.p[k]) < 60)) fail ("output sample %ld is %g for input within [-1, 1]", k, out.p[k]); sink = out.p[k]; }
		(void) sink; cnt.evals += q.gen * ch; cnt.states++; if (q.gen || q.used) cnt.nontriv++;
		pos += q.used; if (o.eof) eof = true;
	}
	void dfs (SRC_STATE *s, int d, long pos, bool eof)
	{	if (d == depth) { cnt.traces++; if (cnt.traces == 1) sample_trace ("call history under the sanitizers"); return; }
		int tl = trace_len;
		for (auto &o : menu)
		{	if (o.kind == 1 && d + 1 == depth) continue;
			trace_len = tl;
			int e = 0; SRC_STATE *c;
			{ InCall g; c = src_clone (s, &e); }
			if (!c || e) fail ("src_clone failed (%d)", e);
			long p2 = pos; bool e2 = eof;
			if (o.kind == 0) call (c, o, p2, e2);
			else if (o.kind == 1) { tr ("src_set_ratio (%.17g)", o.r); InCall g; src_set_ratio (c, o.r); }
			else { tr ("src_reset ()"); InCall g; src_reset (c); e2 = false; }
			dfs (c, d + 1, p2, e2);
			InCall g; src_delete (c);
		}
		trace_len = tl;
	}
};
static void hist (int conv, int ch, std::vector<Op> prefix, std::vector<Op> menu, int depth, const char *nm)
{	add (str ("%s ch=%d %s: %zu operations, depth %d", conv_name (conv), ch, nm, menu.size (), depth), [=] () {
		Hist h; h.conv = conv; h.ch = ch; h.menu = menu; h.depth = depth;
		SRC_STATE *s = make (conv, ch); long pos = 0; bool eof = false;
		for (auto &o : prefix) { if (o.kind == 0) h.call (s, o, pos, eof); else if (o.kind == 1) src_set_ratio (s, o.r); }
		h.dfs (s, 0, pos, eof); InCall g; src_delete (s);
	});
}
// Callback interface: the block delivered by the callback is a heap block of exactly that size, freed at the next callback.
struct Cb { std::vector<long> sizes; size_t k = 0; int ch; float *cur = NULL; long calls = 0, len = 0;
	void check () { for (long i = 0; cur && i < len; i++) if (cur[i] != sig (i % ch, i)) fail (("the library wrote to the block its callback had supplied")); } };
static long cbfun (void *u, float **data)
{	Cb *c = (Cb *) u; c->check (); free (c->cur); c->cur = NULL; c->calls++;
	long n = c->k < c->sizes.size () ? c->sizes[c->k++] : 0;
	c->cur = (float *) malloc (n > 0 ? n * c->ch * sizeof (float) : 0);
	for (long i = 0; i < n * c->ch; i++) c->cur[i] = sig (i % c->ch, i);
	c->len = n * c->ch; *data = n ? c->cur : NULL;
	return n;
}
static void callbacks (int conv, int ch, std::vector<long> blocks, std::vector<long> reads, std::vector<double> rs, int depth)
{	add (str ("%s ch=%d callback reads depth %d", conv_name (conv), ch, depth), [=] () {
		// all sequences of (read size, ratio) of length depth, for each sequence of callback sizes
		long nb = blocks.size (), nseq = nb * nb * nb, na = reads.size () * rs.size (), nr = 1; for (int i = 0; i < depth; i++) nr *= na;
		for (long bs = 0; bs < nseq; bs++) for (long q = 0; q < nr; q++)
		{	Cb cb; cb.ch = ch; cb.sizes = { blocks[bs % nb], blocks[bs / nb % nb], blocks[bs / nb / nb] }; int e = 0; trace_len = 0;
			tr ("callback delivers %.0f, %.0f, %.0f frames, then 0", cb.sizes[0], cb.sizes[1], cb.sizes[2]);
			SRC_STATE *s = src_callback_new (cbfun, conv, ch, &e, &cb); if (!s) fail ("src_callback_new failed");
			long z = q;
			for (int i = 0; i < depth; i++, z /= na)
			{	long m = reads[z % na % reads.size ()]; double r = rs[z % na / reads.size ()];
				Hist::Buf out (m * ch);
				tr ("src_callback_read (ratio=%.17g, frames=%.0f)", r, m);
				long g; { InCall ic; g = src_callback_read (s, r, m, out.p); } cnt.trans++; cnt.states++;
				if (g < 0 || g > m) fail ("src_callback_read returned %ld for %ld frames", g, m);
				if (src_error (s)) fail ("src_callback_read set error %d", src_error (s));
				for (long k = 0; k < g * ch; k++) if (!(fabs (out.p[k]) < 60)) fail ("output sample %ld is %g", k, out.p[k]);
				if (g) cnt.nontriv++; cnt.evals += g * ch;
			}
			cb.check (); src_delete (s); free (cb.cur); cnt.traces++;
		}
	});
}
static std::vector<Op> ops (std::vector<long> ns, std::vector<long> ms, std::vector<double> rs, bool eof, bool set, bool reset)
{	std::vector<Op> v;
	for (double r : rs) for (long m : ms) { for (long n : ns) v.push_back (Op { 0, n, m, r, 0 }); if (eof) { v.push_back (Op { 0, 0, m, r, 1 }); v.push_back (Op { 0, ns.back (), m, r, 1 }); } }
	if (set) for (double r : rs) v.push_back (Op { 1, 0, 0, r, 0 });
	if (reset) v.push_back (Op { 2, 0, 0, 0, 0 });
	return v;
}
// Every ratio of the sweep and every block size, in fixed patterns of calls.
static void sweep (int conv, int ch, std::vector<double> rs, std::vector<long> sizes)
{	add (str ("%s ch=%d %zu ratios %.9g.. with %zu block sizes", conv_name (conv), ch, rs.size (), rs[0], sizes.size ()), [=] () {
		Hist h; h.conv = conv; h.ch = ch;
		auto go = [&] (double r, long N, long blk, long cap) {
			trace_len = 0; SRC_STATE *s = make (conv, ch); long pos = 0, idle = 0; cap = std::max (1l, cap); bool eof = false;
			for (long g = 0; idle < 2 && g < 200000; g++) { trace_len = 1; tr ("(after %.0f calls)", g); long n = std::min (blk, N - pos), p0 = pos; long gen = cnt.evals; h.call (s, Op { 0, n, cap, r, pos + n == N }, pos, eof); idle = pos == p0 && cnt.evals == gen ? idle + 1 : 0; }
			src_delete (s); cnt.traces++; };
		for (double r : rs)
		{	long N = is_sinc (conv) ? (long) (1.6 * half_span (conv, r)) + 20 : r < 1 ? (long) (20 / r) : 40; if (r > 1) N = std::min (N, (long) (is_sinc (conv) ? half_span (conv, 1) : 3) + (long) (2000 / r));
			if (sizes.empty ()) { go (r, N, N / 5 + 1, (long) ((N / 5 + 1) * r)); go (r, N, N, (long) (N * r) + 60); }
			else for (long z : sizes) { long M = std::max (2 * z, 300l); if (is_sinc (conv)) M = std::min (M, 20000l); go (r, M, z, (long) (z * r)); go (r, M, M, z); }
		}
	});
}
// Input of unusual values (denormals, zeros of both signs, infinities, NaNs, huge ones) in memory that cannot be written to.
static const float *odd_at; static long odd_left, odd_blk; static int odd_ch;
static long odd_cb (void *, float **d) { long n = std::min (odd_left, odd_blk); *d = (float *) odd_at; odd_at += n * odd_ch; odd_left -= n; return n; }
static void odd_values (int conv, int ch)
{	add (str ("%s ch=%d unusual values in read-only memory", conv_name (conv), ch), [=] () {
		const uint32_t bits[] = { 0x00000001, 0x80000001, 0x007fffff, 0x80000000, 0, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 0x7f7fffff, 0xff7fffff, 0x00800000, 0x0d800000, 0x8d000000, 0xbf000000, 0x33800000 }; const int nb = sizeof bits / sizeof *bits;
		long N = is_sinc (conv) ? 900 : 200; size_t bytes = ((size_t) N * ch * 4 + 4095) / 4096 * 4096; uint32_t *m = (uint32_t *) mmap (NULL, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) fail ("internal: mmap");
		for (int var = 0; var < nb + 3; var++)
		{	if (mprotect (m, bytes, PROT_READ | PROT_WRITE)) fail ("internal: mprotect");
			for (long i = 0; i < N * ch; i++) m[i] = var < nb ? (i / ch % 5 == 4 ? 0x3e800000 : bits[var]) : bits[(i * (var - nb + 3) + i / 7) % nb];
			if (mprotect (m, bytes, PROT_READ)) fail ("internal: mprotect");
			const float *x = (const float *) m;
			for (double r : { 1.0, 0.37, 2.5, 1 / 20.0 }) for (long blk : { 1l, 7l, 150l, N }) for (int cb = 0; cb < 2; cb++) for (double r2 : { r, 0.8 })
			{	if (blk == 1 && is_sinc (conv) && (var & 1)) continue;
				trace_len = 0; tr ("input values pattern %.0f in read-only memory, blocks of %.0f frames, ratio %.9g", var, blk, r); long cap = std::max (1l, (long) (blk * r)); Hist::Buf out (std::max (cap, 40l) * ch); int e = 0; SRC_STATE *s; cnt.states++; cnt.nontriv++;
				if (cb)
				{	odd_at = x; odd_left = N; odd_blk = blk; odd_ch = ch; s = src_callback_new (odd_cb, conv, ch, &e, NULL); if (!s) fail ("src_callback_new failed");
					for (int k = 0; k < 100000; k++) { tr ("src_callback_read (ratio=%.17g, frames=%.0f)", k & 1 ? r2 : r, 40); long g; { InCall ic; g = src_callback_read (s, k & 1 ? r2 : r, 40, out.p); } trace_len = 1; cnt.trans++; cnt.evals++; if (g <= 0) break; if (g > 40) fail ("%ld frames came", g); }
					if (src_error (s)) fail ("src_callback_read set error %d", src_error (s)); }
				else
				{	s = make (conv, ch); long pos = 0;
					for (int k = 0; k < 100000; k++) { long n = std::min (blk, N - pos); R q = process_ok (s, x + pos * ch, n, out.p, cap, k & 1 ? r2 : r, pos + n == N); trace_len = 1; cnt.trans++; cnt.evals++; pos += q.used; if (pos == N && !q.gen) break; } }
				src_delete (s); cnt.traces++;
			}
		}
		munmap (m, bytes);
	});
}
void setup_tasks ()
{	property_id = "C02"; check_request = true; bool T = thorough (); int X = T ? 1 : 0; hang_ticks = 60;
	rule = "A case is one API call of one history, executed under AddressSanitizer and UBSan with exactly sized heap buffers; non-trivial when it moved frames.";
	explanation = "Exhaustive enumeration of all operation sequences up to the stated depth (block sizes, capacities, ratios, ratio steps, end_of_input, reset; branching by src_clone) from several start states, and of callback block/read size sequences, on a sanitizer build of the library with its assertions enabled.";
	assumptions = { "accesses outside an object are those AddressSanitizer and UBSan (with array bounds) see" };
	for (int conv : { LIN, ZOH }) for (int ch : { 1, 2, 3, 5, 128, 300 })
	{	hist (conv, ch, {}, ops ({ 0, 1, 2, 7 }, { 0, 1, 5 }, { 1.0, 0.3 }, true, true, true), ch > 8 ? 2 : 3 + X, "mild ratios");
		hist (conv, ch, {}, ops ({ 0, 1, 300 }, { 1, 300 }, { 1.0 / 256, 256.0, 1.0 }, true, true, false), ch > 8 ? 2 : 3, "extreme ratios");
		hist (conv, ch, {}, ops ({ 1, 3, 10 }, { 3, 20 }, { 0.1, 0.5, 1.5, 7.0 }, false, false, false), ch > 8 ? 2 : 3 + X, "ramps");
	}
	for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 }) for (int conv : { FAST, MED })
	{	int d = ch <= 3 ? 3 : 2; if (conv == MED && ch > 1) d = 2; if (T && d < 3) d++;
		long H = lrint ((double) filter_of (conv).len / filter_of (conv).inc * 256 + 1), B = 4 * H + 6;
		hist (conv, ch, {}, ops ({ 0, 1, 100 }, { 1, 40 }, { 1.0, 0.4, 2.0 }, true, true, true), d, "mild ratios");
		if (conv == MED && ch > 3 && !T) continue;
		hist (conv, ch, {}, ops ({ 1, H / 2, 2 * H }, { 3, 30 }, { 1.0 / 256, 256.0, 1.0, 0.1 }, true, true, false), 2 + (ch <= 2 && conv == FAST), "extreme ratios");
		hist (conv, ch, { { 0, B - 150, B, 1.0, 0 } }, ops ({ 1, 120, 3000 }, { 1, 200 }, { 1.0, 0.2, 1.0 / 256 }, true, true, false), 2 + (ch <= 2 && conv == FAST), "near the wrap");
		hist (conv, ch, { { 0, 2 * H, 3 * H, 1.0, 0 } }, ops ({ H, 200 }, { 5, 300 }, { 1.0, 1 / 100.0, 1.0 / 256 }, true, true, false), 2, "half full");
		hist (conv, ch, { { 0, 91, 1, 0.99, 1 } }, ops ({ 0, 50 }, { 1, 150 }, { 0.01, 10.0, 0.5, 0.99 }, true, true, false), 2 + (ch <= 3 && conv == FAST), "after end_of_input");
		hist (conv, ch, { { 0, B - 60, B, 1.0, 0 }, { 0, 30, 10, 1.0, 1 } }, ops ({ 0, 50 }, { 1, 150 }, { 0.01, 10.0, 0.5, 1.0 / 256 }, true, true, false), 2, "after end_of_input near the wrap");
		// pure streams at the limits, all positions of the end relative to the buffer
		for (double r : { 1.0 / 256, 1 / 250.1, 0.05, 1.0 }) for (long N : { H / 2, H, 2 * H - 1, 2 * H, 2 * H + 1, 3 * H - 50, 3 * H, 4 * H - 10, 4 * H + 300 })
		{	if ((conv == MED || ch > 3) && r < 0.01 && (N > 2 * H) && !T) continue;
			hist (conv, ch, {}, { Op { 0, N, (long) (N * r) + 50, r, 1 } }, 2, "whole stream"); }
	}
	for (int ch : { 16, 17, 64, 127, 128 }) { hist (FAST, ch, {}, ops ({ 0, 100 }, { 1, 40 }, { 1.0, 0.4 }, true, false, true), 2, "many channels"); }
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 })
	{	for (int k = 0; k < (conv == MED && ch > 1 && !T ? 2 : 8); k++) sweep (conv, ch, some_ratios (8, 3 * k + ch), {});
		if (conv != MED || T) for (double r : { 1.0, 0.91875, 1.7 }) { if (!T && is_sinc (conv) && ch > 2 && r < 1.1) continue; sweep (conv, ch, { r }, sweep_sizes (is_sinc (conv) ? 2500 : 70000, T ? 600 : 100)); } }
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6, 7 }) if (conv != MED || ch == 1 || T) odd_values (conv, ch);
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6, 7 })
		callbacks (conv, ch, is_sinc (conv) ? std::vector<long> { 1, 70, 200 } : std::vector<long> { 1, 3, 20 }, { 1, 30 }, { 1.0, 0.3, 4.0 }, conv == MED || ch > 3 ? 2 : 3);
}
