// C17: sinc converters meet their documented filter quality at every phase.
#include "stream.hpp"
using namespace mc;
// The response of the converter, measured: feeding single samples of value 1 at multiples of S, output frame k at
// position k*M/N sees one of them at distance (k*M - j*S*N)/N.  With gcd (M, S*N) = 1 every distance a/N within the
// span of the filter occurs: all N phases, all taps.
struct Resp { long A; std::vector<float> h; std::vector<char> have; long missing = 0; float at (long a) const { return a < -A || a > A ? 0 : h[a + A]; } };
static long gcd_ (long a, long b) { while (b) { long t = a % b; a = b; b = t; } return a; }
static Resp measure (int conv, int ch, long N, long M, long block)
{	double r = (double) N / M; Resp R; long span = (long) half_span (conv, r) + 2; R.A = span * N; R.h.assign (2 * R.A + 1, 0); R.have.assign (2 * R.A + 1, 0);
	long S = 2 * span + 1; while (gcd_ (M, S) != 1) S++;
	long total = S * N + 2 * S;	// output frames: k*M mod (S*N) takes every value
	SRC_STATE *s = make (conv, ch); tr ("single samples every %.0f frames, ratio %.0f/%.0f, blocks of %.0f frames", S, N, M, block);
	std::vector<float> in (block * ch), out (((long) (block * r) + 8) * ch); long i = 0, o = 0; long cap = (long) (block * r) + 8;
	while (o < total + (long) (2 * span * r))
	{	for (long f = 0; f < block; f++) for (int c = 0; c < ch; c++) in[f * ch + c] = (i + f + c) % S == S / 2 ? 1.0f : 0.0f;	// channels shifted by one frame each
		mc::R q = process_ok (s, in.data (), block, out.data (), cap, r, 0, true); cnt.trans++; cnt.states++;
		for (long g = 0; g < q.gen; g++)
		{	long k = o + g; __int128 pos = (__int128) k * M;	// position times N
			if (pos < (__int128) (span + 1) * N) continue;	// the start of the stream, zeros before
			for (int c = 0; c < ch; c++)
			{	// nearest single sample: frames n with (n + c) % S == S/2
				long fl = (long) (pos / N); long n = fl - ((fl + c - S / 2) % S + S) % S; for (long t = n; t <= n + S; t += S)
				{	__int128 d = pos - (__int128) t * N; if (d < -R.A || d > R.A) continue;
					long a = (long) d; float v = out[g * ch + c];
					if (!R.have[a + R.A]) { R.have[a + R.A] = 1; R.h[a + R.A] = v; }
					else if (!(fabs (R.h[a + R.A] - v) <= 3e-5)) fail ("output frame %ld channel %d: the response at distance %.6f is %.9g here and %.9g elsewhere", k, c, a / (double) N, v, R.h[a + R.A]);
				}
				cnt.evals++;
			}
		}
		i += q.used; o += q.gen; if (!q.used && !q.gen) fail ("no progress");
		if (q.used < block) fail ("only %ld of %ld frames were consumed with room for the output", q.used, block);
	}
	src_delete (s);
	for (char b : R.have) if (!b) R.missing++;
	return R;
}
static void quality (int conv, int ch, long N, long M, long block)
{	add (str ("%s ch=%d ratio=%ld/%ld, %ld phases", conv_name (conv), ch, N, M, N), [=] () {
		hang_ticks = 60; arena_reset (); trace_len = 0; Resp R = measure (conv, ch, N, M, block); double r = (double) N / M, bw = conv == FAST ? 0.80 : 0.90, want = conv == FAST ? 97 : 121, g = r < 1 ? r : 1;
		if (R.missing > 2 * N) fail ("internal: %ld distances were not measured", R.missing);
		// per phase u/N (position b + u/N) the taps are h (u/N + n)
		auto spectrum = [&] (double f, double &gain, double &phase, double &snr, double &worst)
		{	long K = R.A / N; double sr = 0, si = 0; std::vector<double> re (N), im (N);
			for (long u = 0; u < N; u++)
			{	double a = 0, b = 0; double w = 2 * M_PI * f; double x0 = w * (-K), cr = cos (x0), ci = -sin (x0), dr = cos (w), di = -sin (w);	// e^{-i w n}
				for (long n = -K; n < K; n++) { double v = R.at (u + n * N); a += v * cr; b += v * ci; double t = cr * dr - ci * di; ci = cr * di + ci * dr; cr = t; }
				// ideal output e^{i w u/N} (frame b - n has phase -w n), times gain
				double p = -w * ((double) u / N), pr = cos (p), pi = sin (p); re[u] = a * pr - b * pi; im[u] = a * pi + b * pr;
				// with the convention x[m] = e^{i w m}: y = sum h(u/N + n) e^{-i w n}, ideal e^{i w u/N}
				sr += re[u]; si += im[u];
			}
			sr /= N; si /= N; double e = 0; worst = 0; for (long u = 0; u < N; u++) { double d = (re[u] - sr) * (re[u] - sr) + (im[u] - si) * (im[u] - si); e += d; worst = std::max (worst, d); }
			gain = sqrt (sr * sr + si * si); phase = atan2 (si, sr); snr = 10 * log10 ((sr * sr + si * si) / (e / N + 1e-30)); worst = 10 * log10 ((sr * sr + si * si) / (worst + 1e-30));
		};
		bool show = getenv ("MC_SHOW") != NULL; int F = thorough () ? 200 : 40; double flat = (conv == FAST ? 0.85 : 0.91) * bw, avg = conv == FAST ? 94 : 115, wst = conv == FAST ? 86 : 106, stop = conv == FAST ? -98 : -117;
		for (int k = 0; k <= F; k++)
		{	double rel = k * bw / F, f = 0.5 * g * rel, gain, phase, snr, worst; spectrum (f, gain, phase, snr, worst); gain = 20 * log10 (gain); cnt.evals += N; cnt.nontriv += N;
			if (show) printf ("%s ch%d r=%g f=%.5f gain=%.6f dB phase=%.2e snr=%.1f worst=%.1f\n", conv_name (conv), ch, r, f, gain, phase, snr, worst);
			if (!(fabs (gain) <= 0.02) && rel <= flat) fail ("gain %.4f dB at %.1f%% of the Nyquist frequency, ratio %.9g, averaged over all phases", gain, rel * 100, r);
			if (!(gain <= 0.02 && gain >= -3.1)) fail ("gain %.4f dB at %.1f%% of the Nyquist frequency, inside the documented bandwidth, ratio %.9g", gain, rel * 100, r);
			if (!(fabs (phase) <= 2e-5)) fail ("phase error %.3g at %.1f%% of the Nyquist frequency, ratio %.9g: the delay is not compensated exactly", phase, rel * 100, r);
			if (!(snr >= avg)) fail ("signal to noise ratio %.1f dB at %.1f%% of the Nyquist frequency, ratio %.9g; %.0f dB are documented", snr, rel * 100, r, want);
			if (!(worst >= wst)) fail ("at the worst of %ld phases the signal to noise ratio is %.1f dB at %.1f%% of the Nyquist frequency, ratio %.9g; %.0f dB on average are documented", N, worst, rel * 100, r, want);
		}
		if (r < 1) for (int k = 0; k <= F; k++)
		{	double m = 1.06 + (k < F / 2 ? k * 0.02 : k * 0.02 + (k - F / 2) * (k - F / 2) * 0.3 * k / F), f = m * 0.5 * r; if (f > 0.5) break;
			double gain, phase, snr, worst; spectrum (f, gain, phase, snr, worst); cnt.evals += N; double total = 20 * log10 (gain + 1e-12) + 10 * log10 (1 + pow (10, -snr / 10));
			if (show) printf ("  stop %s r=%g f=%.5f*fs_out gain=%.1f dB total=%.1f\n", conv_name (conv), r, f / r, 20 * log10 (gain), total);
			if (!(total <= stop)) fail ("input at %.3f times the Nyquist frequency of the output is attenuated by only %.1f dB, ratio %.9g", m, -total, r);
		}
		if (show) fflush (stdout);
		cnt.traces++; sample_trace ("impulse response over all phases");
	});
}
// A constant input gives the same constant output at every position away from the ends, at any ratio and while it changes.
static void constant (int conv, int ch, std::vector<double> rs, bool ramp)
{	add (str ("constant input %s ch=%d %s, %zu ratios from %.6g", conv_name (conv), ch, ramp ? "changing ratio" : "constant ratio", rs.size (), rs[0]), [=] () {
		double tol = conv == FAST ? 3e-5 : 4e-6; double rmin = 1e9; for (double r : rs) rmin = std::min (rmin, r);
		for (size_t k = 0; k < (ramp ? 1 : rs.size ()); k++)
		{	double r0 = rs[k]; arena_reset (); statics_restore (); trace_len = 0; double span = half_span (conv, ramp ? rmin : r0);
			long blk = (long) span + 40; std::vector<float> in (blk * ch); for (long i = 0; i < blk; i++) for (int c = 0; c < ch; c++) in[i * ch + c] = 0.9f - 0.11f * c - (c & 1 ? 1.1f : 0);
			std::vector<float> out; SRC_STATE *s = make (conv, ch); double pos = 0, before = r0;
			for (int call = 0; call < (ramp ? 3 * (int) rs.size () : 8); call++)
			{	double r = ramp ? rs[(call / 2) % rs.size ()] : r0; bool warm = pos < 2 * span; long cap = ramp ? 60 : std::min (400l, (long) (blk * r) + 4); if (warm && !ramp) cap = (long) (2 * blk * r) + 50; out.assign (cap * ch, 99);
				if (warm) { r = before; call = -1; if (ramp) { cap = 50000; out.assign (cap * ch, 99); } }
				mc::R q = process_ok (s, in.data (), blk, out.data (), cap, r, 0); if (warm) pos += q.gen / r; before = r; cnt.trans++; cnt.states++;
				for (long g = 0; g < q.gen; g++) for (int c = 0; c < ch; c++)
				{	cnt.evals++; if (warm) continue; cnt.nontriv++;
					// the filter index has 12 fractional bits: a relative gain of half a unit per step at small ratios
					double quant = 0.6 / (filter_of (conv).inc * 4096.0 * std::min (1.0, std::min (r, ramp ? rmin : r)));
					float want = in[c]; if (!(fabs (out[g * ch + c] - want) <= (tol + quant) * std::max (0.1f, fabsf (want)))) fail ("constant input %.9g in channel %d: output frame %ld of the last call is %.9g (%s, ratio %.17g)", want, c, g, out[g * ch + c], conv_name (conv), r); }
			}
			src_delete (s); cnt.traces++;
		}
		sample_trace ("constant input");
	});
}
void setup_tasks ()
{	property_id = "C17"; bool T = true, TT = thorough ();
	rule = "A case is one output frame at one fractional position, or one frequency evaluated over all phases of the filter; non-trivial inside the documented band.";
	explanation = "For a ratio N/M every one of the N fractional positions and every filter tap is exercised on the real converter by isolated samples; gain, delay, noise (all images) and aliasing are computed from the complete measured response.";
	assumptions = { "the documented bandwidth is the -3 dB point; the gain is required to be 1 (0.02 dB) up to 85% (fastest) and 91% (medium) of it", "noise limits are the documented ones with an allowance of 3 dB (fastest) and 6 dB (medium) for single precision and for counting the whole noise energy" };
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7, 8 })
	{	std::vector<std::pair<long,long>> l = { { 4099, 4096 }, { 4099, 600 }, { 4099, 4500 }, { 509, 1024 }, { 127, 1000 } };
		if (ch == 1 || T) for (auto p : std::vector<std::pair<long,long>> { { 4099, 17 }, { 16411, 16384 }, { 4099, 4801 }, { 4099, 2048 }, { 1021, 1777 }, { 251, 1250 }, { 61, 1001 }, { 13, 3301 }, { 4099, 3301 }, { 4099, 8192 } }) l.push_back (p);
		if (ch > 2 && !T) l = { { 4099, 3301 }, { 509, 777 } };
		if (TT) for (auto p : std::vector<std::pair<long,long>> { { 65537, 65536 }, { 65537, 60000 }, { 65537, 71999 }, { 16411, 30011 }, { 4099, 40001 }, { 257, 20011 }, { 7, 1789 }, { 16411, 97 } }) l.push_back (p);
		for (auto &p : l) { if (!TT && ch > 2 && p.first * 20 < p.second) continue; if (!T && conv == MED && (ch > 1 || p.first < 20) && p.first * 60 < p.second) continue; if (!T && conv == MED && ch > 1 && p.first > 600 && p.second > 5000) continue; quality (conv, ch, p.first, p.second, p.second < 100 ? 40 : 500); }
	}
	for (int conv : { FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6, 7 })
	{	int K = TT ? 4000 : 400; std::vector<double> rs; for (int k = 0; k <= K; k++) { double e = -1 + 2.0 * k / K; double r = pow (256.0, e); rs.push_back (std::min (256.0, std::max (1.0 / 256, r))); if (r < 0.02 && k % 8 && !T) rs.pop_back (); }
		for (size_t k = 0; k < rs.size (); k += 40) constant (conv, ch, std::vector<double> (rs.begin () + k, rs.begin () + std::min (rs.size (), k + 40)), false);
		constant (conv, ch, { 1.0, 1.1, 0.9, 2.0, 0.5, 1.0001, 0.9999, 3.0, 0.3, 0.31, 5.0, 0.2 }, true); constant (conv, ch, { 10.0, 40.0, 256.0, 8.0 }, true); if (ch < 4 || T) constant (conv, ch, { 0.1, 0.05, 1.0, 0.03 }, true);
	}
}
