// Independent reference models of the converters, written from their documentation and published tables.
#pragma once
#include "engine.hpp"
#include "coeffs.h"

enum { MED = 1, FAST = 2, ZOH = 3, LIN = 4 };
inline const char *conv_name (int c) { static const char *n[] = { "best", "medium", "fastest", "zoh", "linear" }; return c >= 0 && c <= 4 ? n[c] : "?"; }
inline bool is_sinc (int c) { return c == MED || c == FAST; }

// Deterministic test signals, different in every channel and position: mostly values in [-1, 1], among them exact full scale,
// silence, values beyond full scale, tiny ones and denormals.
inline float sig (int ch, long i)
{	uint64_t x = (uint64_t) (i + 1000003) * 0x9E3779B97F4A7C15ull ^ ((uint64_t) (ch + 17) * 0xC2B2AE3D27D4EB4Full);
	x ^= x >> 31; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32;
	if (!(x >> 17 & 15))
	{	static const float odd[32] = { 1, -1, 0.5f, -0.5f, 0, -0.0f, 1.5f, -1.25f, 1e-8f, -1e-40f, 0.25f, -1.0000001f, 0.999969482f, 0.99999994f, 1.0000001f, -0.999969482f,
			0.75f, -0.75f, 1e-30f, 0.500015259f, 0.5625f, 0.125f, -0.125f, 1.1f, -1.7f, 0.99999988f, 0.33333334f, 6.1e-5f, 3.0517578e-5f, -3.0517578e-5f, 1.19e-7f, -0.99999994f };
		return odd[x >> 21 & 31];
	}
	return (float) ((int) (x & 0xFFFF) - 32768) / 32768.0f * 0.9f + (ch & 1 ? -0.05f : 0.05f);
}
inline std::vector<float> make_signal (int ch, long N, int variant = 0)
{	std::vector<float> v ((size_t) (N + 2) * ch + 1);
	for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++) v[(size_t) i * ch + c] = sig (c + 100 * variant, i);
	return v;
}
// Signals with particular values: full-scale square waves, 16-bit and 24-bit grids, loud, quiet, denormal, constant, runs of
// equal frames, all magnitudes at once; the last kinds contain infinite values and NaN.
enum { VALUE_KINDS = 22, FINITE_KINDS = 19 };
inline float odd_value (int kind, int ch, long i)
{	uint64_t x = (uint64_t) (i + 77) * 0x9E3779B97F4A7C15ull ^ ((uint64_t) (ch + 5 + 31 * kind) * 0xC2B2AE3D27D4EB4Full); x ^= x >> 31; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32;
	float u = (float) ((int) (x & 0xFFFF) - 32768) / 32768.0f; int h = x >> 20 & 1023;
	switch (kind)
	{	case 0: return (i / (3 + ch) & 1) ? -1.0f : 1.0f;			// full-scale square wave
		case 1: return u;							// 16-bit grid
		case 2: return (float) ((int) (x & 0xFFFFFF) - 8388608) / 8388608.0f;	// 24-bit grid
		case 3: return u * 32768;						// integers as floats
		case 4: return u * 9.7f;
		case 5: return u * 1e6f;
		case 6: return u * 1e30f;
		case 7: return u * 3e-5f;
		case 8: return u * 1e-12f;
		case 9: return u * 1e-36f;						// down to denormals
		case 10: return u * 1e-40f;						// denormals only
		case 11: return ldexpf (u < 0 ? -1.0f : 1.0f, h % 160 - 100);		// powers of two of all magnitudes
		case 12: return 1.0f;
		case 13: return -0.5f;
		case 14: return ch & 1 ? 0.0f : 1e-7f;
		case 15: { long k = i / 5 + ch; return (k % 7) * 0.25f - 0.75f; }	// runs of equal frames, then a step
		case 16: return h % 3 ? 0.0f : h % 2 ? 1.0f : -1.0f;			// isolated full-scale frames
		case 17: return (float) sin (0.05 * (i + 40 * ch)) * 1.2f;		// overdriven sine
		case 18: return h & 1 ? 0.0f : -0.0f;
		case 19: return h % 9 == 0 ? NAN : u;
		case 20: return h % 9 == 0 ? (h & 16 ? INFINITY : -INFINITY) : u;
		default: return h % 5 == 0 ? (h & 16 ? 3.402823466e38f : -3.402823466e38f) : h % 5 == 1 ? -3e38f : u;
	}
}
inline std::vector<float> odd_signal (int kind, int ch, long N) { std::vector<float> v ((size_t) (N + 2) * ch + 1); for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++) v[(size_t) i * ch + c] = odd_value (kind, c, i); return v; }
struct Filter { const float *h; int len, inc; };
inline Filter filter_of (int conv) { return conv == FAST ? Filter { golden_fast, golden_fast_len, golden_fast_inc } : Filter { golden_mid, golden_mid_len, golden_mid_inc }; }
inline double half_span (int conv, double r) { Filter f = filter_of (conv); return (double) f.len / f.inc / (r < 1 ? r : 1); }

// Filter response at position b + frac (b integer) of the channel read through x (i), which must return 0 outside the stream.
template <class X> double sinc_at (int conv, double r, long b, double frac, X x, double *tol = NULL)
{	Filter f = filter_of (conv);
	double fi = f.inc * (r < 1 ? r : 1);
	long incr = lrint (fi * 4096), start = lrint (frac * fi * 4096), maxi = (long) (f.len - 2) << 12;
	double sum = 0, slope = 0, mag = 0;
	// every stream index i with |start + (b - i) * incr| <= maxi
	long kmax = (maxi - start) / incr, kmin = -((maxi + start) / incr);
	for (long k = kmin; k <= kmax; k++)
	{	long ix = start + k * incr; if (ix < 0) ix = -ix;
		double v = x (b - k);
		if (v == 0) continue;
		long t = ix >> 12; double fr = (ix & 4095) / 4096.0;
		double dh = (double) f.h[t+1] - f.h[t], h = f.h[t] + fr * dh;
		sum += h * v; slope += fabs (dh * v); mag += fabs (h * v);
	}
	// one unit of the fixed-point filter index either way, and float rounding
	if (tol) *tol = fi / f.inc * (slope * 1.3 / 4096 + mag * 4e-7) + std::min (1e-12, mag * 1e-3) + 3e-45;
	return fi / f.inc * sum;
}
// ZOH and linear at position p = b + frac; frames before the first one repeat the first one.
template <class X> double lin_at (long b, double frac, X x) { double a = x (b - 1 < 0 ? 0 : b - 1); return frac == 0 ? a : a + frac * (x (b) - a); }

// A legal ratio and its exact inverse as a fraction (0 when 1/r is not a short fraction).
struct Ratio { double r; const char *name; bool dyadic; };
inline bool is_dyadic (double r) { double q = 1.0 / r * 1048576.0; return q == floor (q) && 1.0 / (1.0 / r) == r && q < 1e15; }
#ifndef MC_ASAN
// Repeats f until the complete memory image recurs - from then on everything repeats for ever - or `most` times.  f compares
// the results of every repetition itself.  Returns the number of repetitions after which the image recurred, or -1.
inline long repeat (long most, const std::function<void(long)> &f)
{	std::unordered_set<uint64_t> seen; seen.insert (mc::state_hash ()); int tl = mc::trace_len;
	for (long k = 0; k < most; k++)
	{	mc::trace_len = tl; if (k) mc::tr ("(after %.0f repetitions)", k);
		f (k); mc::cnt.states++; mc::cnt.nontriv++;
		if (k < 100 && !seen.insert (mc::state_hash ()).second) return k + 1;
	}
	return -1;
}
#endif
// Ratios and sizes for sweeps: everything a caller is likely to use, so that no single value is special without being tried.
inline const std::vector<double> &sweep_ratios ()
{	static std::vector<double> v; if (! v.empty ()) return v;
	auto put = [&] (double r) { if (r >= 1.0 / 256 && r <= 256.0) { for (double q : v) if (q == r) return; v.push_back (r); } };
	for (int p = 1; p <= 12; p++) for (int q = 1; q <= 12; q++) put ((double) p / q);
	const int rate[] = { 8000, 11025, 12000, 16000, 22050, 24000, 32000, 37800, 44056, 44100, 47952, 48000, 50000, 64000, 88200, 96000, 176400, 192000, 352800, 384000 };
	for (int a : rate) for (int b : rate) { put ((double) a / b); }
	for (int k = 2; k <= 12; k++) { double d = pow (10, -k); put (1 + d); put (1 - d); put (0.5 + d); put (2 - d); }
	for (int k = 1; k <= 8; k++) { double p = ldexp (1, k); for (double e : { 0.0, 1e-9, -1e-9, 1e-3, -1e-3 }) { put (p * (1 + e)); put (1 / p * (1 + e)); } }
	for (int k = 13; k <= 256; k += k < 40 ? 1 : k < 100 ? 7 : 13) { put (k); put (1.0 / k); put (256.0 / k); put (k / 256.0); }
	for (double r : { 0.01, 0.02, 0.05, 0.15, 0.35, 0.45, 0.55, 0.65, 0.85, 0.95, 0.975, 1.05, 1.15, 1.35, 1.45, 1.55, 1.65, 1.85, 1.95, 2.5, 2.999, 3.14159265358979, 2.71828182845905, 100.0, 128.5, 255.0, 255.99, 1 / 255.99, 0.0039999, 0.7071067811865476, 1.4142135623730951, 1.0594630943592953, 0.9438743126816935 }) put (r);
	return v;
}
// Every third (fifth ...) ratio, another third for each `off`.
inline std::vector<double> some_ratios (int every, int off = 0) { std::vector<double> v; const std::vector<double> &a = sweep_ratios (); for (size_t i = off % every; i < a.size (); i += every) v.push_back (a[i]); return v; }
// Ratios in equal steps (of the logarithm) over the whole legal range.
inline std::vector<double> grid_ratios (int n, double off = 0) { std::vector<double> v; for (int i = 0; i <= n; i++) { double r = pow (256, 2 * (i + off) / n - 1); v.push_back (std::max (1.0 / 256, std::min (256.0, r))); } return v; }
inline std::vector<long> sweep_sizes (long most, long dense = 70)
{	std::vector<long> v; for (long i = 1; i <= dense; i++) v.push_back (i);
	for (int k = 6; k < 20; k++) for (long d : { -1, 0, 1 }) { v.push_back ((1l << k) + d); v.push_back (3 * (1l << (k - 1)) + d); }
	for (long m : { 100, 147, 160, 192, 240, 441, 480, 882, 960, 1000, 1152, 1764, 1920, 2205, 2400, 4410, 4800, 5000, 8000, 10000, 11025, 22050, 32000, 44100, 48000, 50000, 88200, 96000, 100000 }) v.push_back (m);
	std::sort (v.begin (), v.end ()); v.erase (std::unique (v.begin (), v.end ()), v.end ()); while (! v.empty () && v.back () > most) v.pop_back ();
	return v;
}
