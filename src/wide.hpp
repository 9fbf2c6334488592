// Streams of very many channels (linear and ZOH accept any number), more than any counter or fixed array for channels can hold by accident.
#pragma once
#include "ops.hpp"
inline std::vector<int> wide_counts () { std::vector<int> v = { 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 10000, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100003, 131073, 300007 }; if (mc::thorough ()) for (int n : { 1000003, 2097153, 4194305 }) v.push_back (n); return v; }
enum { WIDE_KINDS = 10007 };	// a prime number of different channel signals, so that channels 2^k apart differ
inline float wide_sig (int c, long i) { return (float) (sin (0.61 * (c % WIDE_KINDS) + 0.9 * i + 0.37 * (c % WIDE_KINDS % 13) * i)); }
struct WideCall { long n, m; double r; int eof; };
inline std::vector<WideCall> wide_calls () { return { { 4, 3, 0.7, 0 }, { 2, 5, 1.3, 0 }, { 1, 0, 1.0, 0 }, { 1, 1, 1.0, 0 }, { 5, 40, 1.0, 0 }, { 3, 40, 0.6, 1 } }; }
inline const float *wide_stream (int ch, float scale, std::vector<float> &x) { long N = 24; x.resize (N * ch); for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++) x[i * ch + c] = scale * wide_sig (c, i); return x.data (); }
// All the calls; results into a log.  from: first frame of the stream.
inline void wide_run (SRC_STATE *s, int ch, const float *x, std::vector<std::vector<float>> &out, Log &log)
{	long at = 0; out.clear (); std::vector<float> o (40l * ch + 1);
	for (auto &c : wide_calls ()) { mc::R q = mc::process_ok (s, x + at * ch, c.n, o.data (), c.m, c.r, c.eof); mc::cnt.trans++; mc::cnt.states++; mc::cnt.nontriv += q.gen > 0; at += q.used; out.emplace_back (o.begin (), o.begin () + q.gen * ch); log.i (q.err); log.i (q.used); log.i (q.gen); }
}
inline void wide_same (const std::vector<std::vector<float>> &a, const std::vector<std::vector<float>> &b, int ch, const char *what)
{	if (a.size () != b.size ()) mc::fail ("%s: another number of results", what);
	for (size_t k = 0; k < a.size (); k++) { mc::cnt.evals += a[k].size (); if (a[k].size () != b[k].size ()) mc::fail ("%s: call %zu gives %zu frames and not %zu", what, k, b[k].size () / ch, a[k].size () / ch); for (size_t i = 0; i < a[k].size (); i++) if (memcmp (&a[k][i], &b[k][i], 4)) mc::fail ("%s: call %zu, frame %zu, channel %zu of %d: %.9g and not %.9g", what, k, i / ch, i % ch, ch, b[k][i], a[k][i]); }
}
