// Reference model of position and ratio: where each output frame lies in the input, for constant and changing ratios.
#pragma once
#include "ref.hpp"

struct VarModel {
	int conv; double last = 0;	// ratio in force, 0: not set yet
	long b = 0; double f = 0;	// position of the next output frame is b + f
	long base = 0;			// frames consumed so far (zoh, linear)
	struct Pt { long b; double f, r; };
	void advance (double r) { f += 1.0 / r; double w = floor (f); b += (long) w; f -= w; }
	// Ratios and positions of the next `count` frames of a call with capacity m and target ratio.
	template <class V> void frames (long count, long m, double ratio, V visit)
	{	if (last == 0) last = ratio;
		double r = last, from = last;
		bool ramp = fabs (from - ratio) > 1e-15;
		for (long k = 0; k < count; k++)
		{	if (ramp) r = from + k * (ratio - from) / m;
			visit (k, Pt { b, f, r });
			advance (r);
		}
		if (count > 0) last = r;
	}
	void note_call (double ratio) { if (last == 0) last = ratio; }
};
inline bool near_int (double f, double eps = 1e-9) { return f < eps || f > 1 - eps; }

// Checks the frames of one ZOH or linear call.  x (i) reads channel c of the stream.
template <class X> inline void check_zl_value (int conv, const VarModel::Pt &p, float got, X x, double tol, const char *what, long frame, int c)
{	long b = p.b;
	if (conv == LIN)
	{	float a = x (b - 1 < 0 ? 0 : b - 1), z = p.f == 0 ? a : (float) x (b); bool edge = near_int (p.f);
		if (!std::isfinite (a) || !std::isfinite (z))
		{	if (!edge && std::isfinite (got)) mc::fail ("%s: output frame %ld channel %d at input position %.9f is %.9g, between the input frames %g and %g", what, frame, c, b + p.f, got, a, z);
			return; }
		double w = lin_at (b, p.f, x), mag = std::max (fabs (a), fabs (z)), slope = 0;
		if (edge)	// the position may have been rounded into the neighbouring interval
			for (long j : { b - 2, b, p.f > 0.5 ? b + 1 : b }) { float q = x (j < 0 ? 0 : j); if (!std::isfinite (q)) return; slope = std::max (slope, fabs ((double) q)); }
		if (!(fabs (got - w) <= tol * std::min (1.0, mag) + 3e-7 * mag + 1e-9 * slope + 3e-45)) mc::fail ("%s: output frame %ld channel %d at input position %.9f is %.9g, interpolation gives %.9g", what, frame, c, b + p.f, got, w);
		return;
	}
	auto same = [&] (float v) { return memcmp (&v, &got, 4) == 0 || (v != v && got != got); };
	bool ok = same (x (b - 1 < 0 ? 0 : b - 1));
	if (!ok && p.f < 1e-9) { long q = b - 2; ok = same (x (q < 0 ? 0 : q)); }
	if (!ok && p.f > 1 - 1e-9) ok = same (x (b));
	if (!ok) mc::fail ("%s: output frame %ld channel %d at input position %.9f is %.9g, the held frame is %.9g", what, frame, c, b + p.f, got, (double) x (b - 1 < 0 ? 0 : b - 1));
}
// Expected counts of a ZOH/linear call: avail = number of stream frames available to the call in total.
struct ZLExpect { long gen_min, gen_max; };
inline ZLExpect zl_gen (const VarModel &m0, long n, long avail, long m, double ratio)
{	ZLExpect e = {0, 0};
	if (n <= 0) { return e; }
	VarModel t = m0; t.note_call (ratio); double from = t.last, r = from; bool ramp = fabs (from - ratio) > 1e-15; bool sure = true;
	for (long k = 0; k < m; k++)
	{	double p = t.f; long b = t.b;
		double d = (double) (b - avail) + p;	// position minus end
		if (d >= 1e-9) break;
		if (d > -1e-9 && sure) { sure = false; e.gen_min = k; }	// coincides with the end: may or may not come
		if (ramp) r = from + k * (ratio - from) / m;
		t.advance (r); e.gen_max = k + 1;
	}
	if (sure) e.gen_min = e.gen_max;
	return e;
}
