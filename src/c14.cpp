// C14: sample format conversions are exact, saturate and invert each other.  The whole input domain is enumerated.
#include <set>
#include "engine.hpp"
using namespace mc;
enum { B = 4096 };
static bool near_or_clip (double scaled, long out, double lo, double hi)
{	if (scaled >= hi) return out == (long) hi;
	if (scaled <= lo) return out == (long) lo;
	return fabs ((double) out - scaled) <= 0.5;
}
static float fbits (uint32_t u) { float f; memcpy (&f, &u, 4); return f; }
static void check_float (const float *in, const short *s, const int *i, long n)
{	for (long k = 0; k < n; k++)
	{	float x = in[k]; if (x != x) continue;
		if (s && !near_or_clip ((double) x * 32768.0, s[k], -32768, 32767)) fail ("src_float_to_short_array converts %.9g (%a) to %d", x, x, s[k]);
		if (i && !near_or_clip ((double) x * 2147483648.0, i[k], -2147483648.0, 2147483647)) fail ("src_float_to_int_array converts %.9g (%a) to %d", x, x, i[k]);
	}
}
static void floats (uint32_t part, uint32_t parts)
{	add (str ("all float bit patterns, part %u of %u", part, parts), [=] () {
		static float in[B]; static short s[B]; static int i[B]; uint64_t per = (1ull << 32) / parts, lo = per * part;
		for (uint64_t u = lo; u < lo + per; u += B)
		{	for (int k = 0; k < B; k++) in[k] = fbits ((uint32_t) (u + k));
			{ InCall g; src_float_to_short_array (in, s, B); src_float_to_int_array (in, i, B); }
			check_float (in, s, i, B);
			cnt.evals += 2 * B; cnt.trans += 2; cnt.nontriv += 2 * B; cnt.states += B;
		}
	});
}
static void ints (uint32_t part, uint32_t parts)
{	add (str ("all ints, part %u of %u", part, parts), [=] () {
		static int in[B], back[B]; static float f[B]; uint64_t per = (1ull << 32) / parts, lo = per * part;
		for (uint64_t u = lo; u < lo + per; u += B)
		{	for (int k = 0; k < B; k++) in[k] = (int) (uint32_t) (u + k);
			{ InCall g; src_int_to_float_array (in, f, B); src_float_to_int_array (f, back, B); }
			for (int k = 0; k < B; k++)
			{	float w = (float) ((double) in[k] / 2147483648.0);
				if (f[k] != w) fail ("src_int_to_float_array converts %d to %.9g, the nearest float is %.9g", in[k], f[k], w);
				if ((double) w * 2147483648.0 == in[k] && back[k] != in[k]) fail ("%d, which a float represents exactly, comes back as %d", in[k], back[k]);
				if (!(f[k] >= -1.0f && f[k] <= 1.0f)) fail ("%d becomes %.9g", in[k], f[k]);
			}
			cnt.evals += 2 * B; cnt.trans += 2; cnt.nontriv += 2 * B; cnt.states += B;
		}
	});
}
static void shorts ()
{	add ("all shorts, both ways", [] () {
		static short in[65536], back[65536]; static float f[65536];
		for (int k = 0; k < 65536; k++) in[k] = (short) k;
		{ InCall g; src_short_to_float_array (in, f, 65536); src_float_to_short_array (f, back, 65536); }
		for (int k = 0; k < 65536; k++)
		{	if ((double) f[k] != in[k] / 32768.0) fail ("src_short_to_float_array converts %d to %.9g", in[k], f[k]);
			if (back[k] != in[k]) fail ("short %d comes back as %d", in[k], back[k]);
			cnt.evals += 2; cnt.nontriv++; cnt.states++;
		}
		tr ("src_short_to_float_array (all 65536 values), then src_float_to_short_array"); sample_trace ("round trip of every short"); cnt.trans += 2; cnt.traces++;
	});
}
// Every length and alignment: exactly len elements, nothing else, and every element by itself whatever its neighbours are.
template <class A, class O> static void one_len (void (*f) (const A *, O *, int), const A *vals, int nvals, int len, int ia, int oa, int shift, const char *what)
{	static A in[2200], keep[2200]; static O out[2200]; O one[2]; A ina[2];
	const int N = 2200;
	memset ((void *) out, 0x5A, sizeof out); static O pat[N]; memset ((void *) pat, 0x5A, sizeof pat);
	for (int k = 0; k < N; k++) in[k] = vals[(k * 7 + shift) % nvals];
	memcpy ((void *) keep, in, sizeof in);
	{ InCall g; f (in + 8 + ia, out + 8 + oa, len); }
	int n = len > 0 ? len : 0;
	if (memcmp (keep, in, sizeof in)) fail ("%s (len=%d) changed its input", what, len);
	if (memcmp (out, pat, (8 + oa) * sizeof (O))) fail ("%s (len=%d, output offset %d) wrote before the output array", what, len, oa);
	if (memcmp (out + 8 + oa + n, pat, (N - 8 - oa - n) * sizeof (O))) fail ("%s (len=%d, output offset %d) wrote past the %d elements", what, len, oa, n);
	for (int k = 0; k < n; k++)
	{	ina[0] = in[8 + ia + k]; f (ina, one, 1);
		if (ina[0] == ina[0] && memcmp (&out[8 + oa + k], &one[0], sizeof (O))) fail ("%s (len=%d, offsets %d and %d): element %d is not converted like the same value alone", what, len, ia, oa, k);
	}
	cnt.evals += n + 2; cnt.trans++; cnt.states++; cnt.nontriv += n > 0;
}
static void lengths (int which)
{	add (str ("all lengths and alignments, function %d", which), [=] () {
		static const float fv[] = { 0.5f, -0.5f, 1.0f, -1.0f, 2.0f, -2.0f, NAN, INFINITY, -INFINITY, 0.99999f, 1e-30f, -0.0f, 1e30f, -1e30f, 0.25f, 1.5f / 32768, 2.5f / 32768, -0.9999999f, 0.123f };
		static const int iv[] = { 0, 1, -1, INT_MAX, INT_MIN, 123456789, -987654321, 1 << 24, (1 << 24) + 1, INT_MAX - 63, 65536, -3, 77 };
		static const short sv[] = { 0, 1, -1, 32767, -32768, 1234, -4321, 255, 256, -32767, 5 };
		std::vector<int> lens; for (int l = 0; l <= (thorough () ? 600 : 140); l++) lens.push_back (l); for (int l : { 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048 }) lens.push_back (l);
		for (int len : lens) for (int ia = 0; ia < 8; ia++) for (int oa = 0; oa < 8; oa++) for (int shift : { 0, 3, 11 })
		{	trace_len = 0; tr ("conversion function %.0f, len=%.0f, input offset %.0f, output offset %.0f", which, len, ia, oa);
			if (which == 0) one_len<float, short> (src_float_to_short_array, fv, sizeof fv / sizeof *fv, len, ia, oa, shift, "src_float_to_short_array");
			else if (which == 1) one_len<float, int> (src_float_to_int_array, fv, sizeof fv / sizeof *fv, len, ia, oa, shift, "src_float_to_int_array");
			else if (which == 2) one_len<int, float> (src_int_to_float_array, iv, sizeof iv / sizeof *iv, len, ia, oa, shift, "src_int_to_float_array");
			else one_len<short, float> (src_short_to_float_array, sv, sizeof sv / sizeof *sv, len, ia, oa, shift, "src_short_to_float_array");
		}
		cnt.traces++;
	});
}
// Every length around many sizes, and every one modulo 64 at the usual sizes: blocks and remainders of whatever width.
template <class A, class O> static void tails (const char *name, void (*f) (const A *, O *, int), std::function<A(int)> val)
{	add (str ("%s with lengths around 2^k, 10^k and usual sizes", name), [=] () {
		std::set<int> lens; const int most = thorough () ? 40000000 : 4500000;
		for (int k = 8; k < 26; k++) for (int d = k < 21 ? -66 : -17; d <= (k < 21 ? 66 : 17); d++) { lens.insert ((1 << k) + d); if (k < 23) lens.insert (3 * (1 << (k - 1)) + d); }
		for (int b : { 1000, 3000, 5000, 10000, 20000, 44100, 48000, 50000, 88200, 100000, 150000, 192000, 250000, 441000, 480000, 500000, 1000000, 2000000, 4410000 }) for (int d = 0; d < 66; d++) { lens.insert (b + d); lens.insert (b - d); }
		const int M = 64 + most + 200; std::vector<A> in (M); std::vector<O> want (M), out (M); for (int k = 0; k < M; k++) in[k] = val (k % 1021);
		{ std::vector<O> per (1021); for (int k = 0; k < 1021; k++) f (&in[k], &per[k], 1); for (int k = 0; k < M; k++) want[k] = per[k % 1021]; }
		O pat; memset (&pat, 0x5A, sizeof pat);
		for (int len : lens)
		{	if (len > most) continue;
			int oa = len & 7; memset ((void *) out.data (), 0x5A, (size_t) std::min (M, len + oa + 128) * sizeof (O)); trace_len = 0; tr ("conversion with len=%.0f", len); { InCall g; f (in.data (), out.data () + oa, len); }
			if (memcmp (&out[oa], want.data (), (size_t) len * sizeof (O))) { int k = 0; while (!memcmp (&out[oa + k], &want[k], sizeof (O))) k++; fail ("%s with %d elements: element %d is wrong", name, len, k); }
			for (int k = 0; k < oa; k++) if (memcmp (&out[k], &pat, sizeof (O))) fail ("%s with %d elements wrote before the output", name, len);
			for (int k = 0; k < 100; k++) if (memcmp (&out[oa + len + k], &pat, sizeof (O))) fail ("%s with %d elements wrote past the end", name, len);
			cnt.evals += len; cnt.trans++; cnt.states++; cnt.nontriv++;
		}
		cnt.traces++;
	});
}
// Lengths in the order of 2^30 and 2^31, on one block of memory mapped over and over.
template <class A, class O> static void big (const char *name, void (*f) (const A *, O *, int), std::function<A(int)> val)
{	add (str ("%s with up to 2^31-1 elements", name), [=] () {
		const size_t chunk = 1 << 24; size_t n = 0x7fffffff;
		auto map = [&] (size_t bytes) { size_t tot = (bytes + chunk - 1) / chunk * chunk + chunk; int fd = memfd_create ("c14", 0); if (fd < 0 || ftruncate (fd, chunk)) fail ("internal: memfd");
			char *b = (char *) mmap (NULL, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) fail ("internal: mmap");
			for (size_t o = 0; o < tot; o += chunk) if (mmap (b + o, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) fail ("internal: mmap");
			close (fd); return std::make_pair (b, tot); };
		auto mi = map (n * sizeof (A)), mo = map (n * sizeof (O)); A *in = (A *) mi.first; O *out = (O *) mo.first;
		// The blocks of the output at some places, the first and last ones included, have memory of their own; the others share one.
		// The input has the same period, so the order in which elements are written does not matter.
		size_t ni = chunk / sizeof (A), no = chunk / sizeof (O), per = std::min (ni, no);
		for (size_t k = 0; k < ni; k++) in[k] = val ((int) (k % per % 1021));
		std::vector<O> want (per); for (size_t k = 0; k < per; k++) { A a = in[k]; f (&a, &want[k], 1); }
		for (long len : { 0x7fffffffl, 0x40000001l })
		{	size_t last = ((size_t) len - 1) / no; std::set<size_t> own = { 0, 1, last / 4, last / 2, last / 2 + 1, last * 3 / 4, last - 1, last, last + 1 };
			for (size_t o : own) if ((o + 1) * chunk <= mo.second) { if (mmap (mo.first + o * chunk, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) fail ("internal: mmap"); memset (mo.first + o * chunk, 0x5A, chunk); }
			own.insert (2); memset (mo.first + 2 * chunk, 0x5A, chunk);
			trace_len = 0; tr ("conversion with len=%.0f", len); hang_ticks = 120; { InCall g; f (in, out, (int) len); } hang_ticks = 25;
			O pat; memset (&pat, 0x5A, sizeof (O));
			for (size_t o : own) if ((o + 1) * chunk <= mo.second) for (size_t k = o * no; k < (o + 1) * no; k++)
			{	if (k < (size_t) len ? memcmp (&out[k], &want[k % per], sizeof (O)) : memcmp (&out[k], &pat, sizeof (O))) fail ("%s with %ld elements: element %zu %s", name, len, k, k < (size_t) len ? "is wrong" : "was written"); }
			cnt.evals += own.size () * no; cnt.trans++; cnt.states++; cnt.nontriv++;
		}
		cnt.traces++; munmap (mi.first, mi.second); munmap (mo.first, mo.second);
	});
}
void setup_tasks ()
{	property_id = "C14";
	rule = "A case is one element conversion; every bit pattern of the input type is converted (all shorts, all ints, all floats).";
	explanation = "Complete enumeration of the input domain (2^16, 2^32, 2^32 values per function) and of lengths and alignments up to the bound, on the real functions; oracle: exact arithmetic in double (every scaled value is exact), nearest integer or nearest limit.";
	assumptions = { "the result for NaN is unspecified and not checked; ties may round either way" };
	hang_ticks = 60;
	shorts ();
	for (int w = 0; w < 4; w++) lengths (w);
	for (int p = 0; p < 64; p++) { floats (p, 64); ints (p, 64); }
	big<short, float> ("src_short_to_float_array", src_short_to_float_array, [] (int k) { return (short) (k * 61 - 30000); });
	tails<short, float> ("src_short_to_float_array", src_short_to_float_array, [] (int k) { return (short) (k * 61 - 30000); });
	big<int, float> ("src_int_to_float_array", src_int_to_float_array, [] (int k) { return k * 2000003; });
	tails<int, float> ("src_int_to_float_array", src_int_to_float_array, [] (int k) { return k * 2000003; });
	big<float, short> ("src_float_to_short_array", src_float_to_short_array, [] (int k) { return (float) (k - 510) / 400.f; });
	tails<float, short> ("src_float_to_short_array", src_float_to_short_array, [] (int k) { return (float) (k - 510) / 400.f; });
	big<float, int> ("src_float_to_int_array", src_float_to_int_array, [] (int k) { return (float) (k - 510) / 400.f; });
	tails<float, int> ("src_float_to_int_array", src_float_to_int_array, [] (int k) { return (float) (k - 510) / 400.f; });
}
