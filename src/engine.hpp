// Explicit-state exploration engine for the real library code.
//
//  * The library's objects are linked with their allocator calls renamed to mc_*; they allocate from an arena at a
//    fixed address.  Arena + the library's writable static data = the complete state of the system, so a state can be
//    saved, restored and hashed, and every transition is one call of the real public API.
//  * Checks are split into tasks (one bounded state space each), explored by forked workers.  A crash, an assertion,
//    a hang or a failed comparison in a worker becomes a violation with the trace of API calls that led to it.
//  * The violating task is run again alone in a fresh process before it is reported.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <climits>
#include <cfloat>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <atomic>
#include <new>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include "samplerate.h"

namespace mc {

// ------------------------------------------------------------------ shared bookkeeping
enum { MAXTRACE = 6000, MSG = 3000, TRC = 60000, NW = 64 };
struct Viol { int task; bool known; char key[300], msg[MSG], trace[TRC]; };
struct Shared {
	std::atomic<int> next, minviol, nviol, nsamples, nknown, finished, timed_out;
	std::atomic<long> states, trans, evals, traces, nontriv, ops, extra[16];
	std::atomic<int> cur[NW];
	char samples[6][6000];
	Viol viol[24];
	char known[24][300];
};
inline Shared *sh;
struct Counters { long states = 0, trans = 0, evals = 0, traces = 0, nontriv = 0, ops = 0, extra[16] = {0}; };
inline Counters cnt;
inline void flush_counters ()
{	sh->states += cnt.states; sh->trans += cnt.trans; sh->evals += cnt.evals; sh->traces += cnt.traces;
	sh->nontriv += cnt.nontriv; sh->ops += cnt.ops;
	for (int i = 0; i < 16; i++) sh->extra[i] += cnt.extra[i];
	cnt = Counters ();
}

inline double now () { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline std::string property_id = "C00", tier = "quick";
inline bool thorough () { return tier == "thorough"; }
struct Task { std::string name; std::function<void()> run; };
inline std::vector<Task> tasks;
inline int cur_task = -1, worker_slot = 0;
inline std::vector<std::string> known_keys;	// keys of listed findings of this property

// ------------------------------------------------------------------ trace of the current execution
struct Ev { const char *fmt; double a[7]; };
inline Ev trace_buf[MAXTRACE];
inline int trace_len = 0; inline long trace_dropped = 0;
inline volatile long opseq = 0; inline volatile int in_call = 0;
inline void tr (const char *fmt, double a = 0, double b = 0, double c = 0, double d = 0, double e = 0, double f = 0, double g = 0)
{	if (trace_len < MAXTRACE) trace_buf[trace_len++] = Ev { fmt, {a,b,c,d,e,f,g} };
	else { memmove (trace_buf + MAXTRACE / 2, trace_buf + MAXTRACE / 2 + 1, sizeof (Ev) * (MAXTRACE / 2 - 1)); trace_buf[MAXTRACE-1] = Ev { fmt, {a,b,c,d,e,f,g} }; trace_dropped++; }
}
inline int render_trace (char *dst, int cap)
{	int n = 0; dst[0] = 0;
	int from = trace_len > 700 ? 350 : trace_len, to = trace_len > 700 ? trace_len - 350 : trace_len;
	for (int i = 0; i < trace_len && n < cap - 400; i++)
	{	if (i == from && to > from) { n += snprintf (dst + n, cap - n, "  ... %d calls ...\n", to - from); i = to - 1; continue; }
		Ev &e = trace_buf[i];
		n += snprintf (dst + n, cap - n, "  ");
		n += snprintf (dst + n, cap - n, e.fmt, e.a[0], e.a[1], e.a[2], e.a[3], e.a[4], e.a[5], e.a[6]);
		n += snprintf (dst + n, cap - n, "\n");
	}
	return n;
}
[[noreturn]] inline void record_violation (const char *key, const char *msg)
{	bool known = false;
	for (auto &k : known_keys) if (k == key) known = true;
	if (known)
	{	int i = sh->nknown++;
		if (i < 24) snprintf (sh->known[i], 300, "%s", key);
		flush_counters ();
		_exit (4);
	}
	int i = sh->nviol++;
	if (i < 24)
	{	Viol &v = sh->viol[i];
		snprintf (v.key, sizeof v.key, "%s", key);
		snprintf (v.msg, sizeof v.msg, "%s", msg);
		render_trace (v.trace, sizeof v.trace);
		v.task = cur_task;
		int m = sh->minviol.load ();
		while (cur_task < m && !sh->minviol.compare_exchange_weak (m, cur_task)) ;
	}
	flush_counters ();
	_exit (3);
}
[[noreturn]] inline void fail (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
[[noreturn]] inline void fail (const char *fmt, ...)
{	char b[MSG]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap);
	std::string key = cur_task >= 0 ? tasks[cur_task].name : "";
	record_violation (key.c_str (), b);
}
inline void sample_trace (const char *what)
{	if (sh->nsamples.load () >= 6) return;
	int i = sh->nsamples++;
	if (i >= 6) return;
	int n = snprintf (sh->samples[i], 6000, "task %s: %s\n", tasks[cur_task].name.c_str (), what);
	static char tmp[TRC]; render_trace (tmp, sizeof tmp);
	snprintf (sh->samples[i] + n, 6000 - n, "%s", tmp);
}

// ------------------------------------------------------------------ arena
#ifndef MC_ASAN
static const uintptr_t ARENA_BASE = 0x100000000000ull;
static const size_t ARENA_SIZE = 3ull << 30;
static const uint64_t BLK_LIVE = 0x4c6956654c697665ull, BLK_DEAD = 0x64654144644561ull;
struct Arena { uint64_t used, nlive, live_bytes, first; };
struct Blk { uint64_t magic, size, next, pad; uint8_t red[32]; };	// payload follows, then 64 bytes of red zone
inline Arena *arena;
inline uint8_t fill_byte = 0xC5;
inline long fail_countdown = -1;	// >= 0: the allocation with this index (counted from now) returns NULL
inline long alloc_attempts = 0, fail_from = -1;	// fail_from >= 0: every attempt with this number or a higher one fails
inline void arena_reset ()
{	arena->used = sizeof (Arena) + 64 - sizeof (Arena) % 64; arena->nlive = arena->live_bytes = arena->first = 0;
	fail_countdown = fail_from = -1; alloc_attempts = 0; fill_byte = 0xC5;
}
inline void arena_init ()
{	void *p = mmap ((void *) ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p == MAP_FAILED) { perror ("arena"); exit (2); }
	arena = (Arena *) p; arena_reset ();
}
inline bool arena_reuse = true;
inline size_t blk_span (size_t size) { return sizeof (Blk) + ((size + 15) & ~15ull) + 64; }
inline void *arena_alloc (size_t size, bool zero)
{	alloc_attempts++;
	if (fail_from >= 0 && alloc_attempts > fail_from) return NULL;
	if (fail_countdown == 0) { fail_countdown = -1; return NULL; }
	if (fail_countdown > 0) fail_countdown--;
	size_t span;
	if (size > ARENA_SIZE || arena->used + (span = blk_span (size)) > ARENA_SIZE) return NULL;
	uint64_t off = arena->used; arena->used += span;
	Blk *b = (Blk *) ((char *) arena + off);
	b->magic = BLK_LIVE; b->size = size; b->next = arena->first; b->pad = 0; memset (b->red, 0xBD, 32);
	arena->first = off; arena->nlive++; arena->live_bytes += size;
	char *p = (char *) (b + 1);
	memset (p, zero ? 0 : fill_byte, size);
	memset (p + size, 0xBD, span - sizeof (Blk) - size);
	return p;
}
inline void blk_check (Blk *b)
{	char *p = (char *) (b + 1); size_t tail = blk_span (b->size) - sizeof (Blk) - b->size;
	for (int i = 0; i < 32; i++) if (b->red[i] != 0xBD) fail ("the library wrote before the start of an allocated block of %lu bytes", (unsigned long) b->size);
	for (size_t i = 0; i < tail; i++) if ((uint8_t) p[b->size + i] != 0xBD) fail ("the library wrote %lu bytes past the end of an allocated block of %lu bytes", (unsigned long) i + 1, (unsigned long) b->size);
}
inline void arena_check ()
{	for (uint64_t o = arena->first; o; o = ((Blk *) ((char *) arena + o))->next)
	{	Blk *b = (Blk *) ((char *) arena + o);
		if (b->magic != BLK_LIVE && b->magic != BLK_DEAD) fail ("allocator header overwritten");
		blk_check (b);
	}
}
inline void arena_free (void *p)
{	if (p == NULL) return;
	uintptr_t u = (uintptr_t) p;
	if (u < ARENA_BASE || u >= ARENA_BASE + arena->used) fail ("free of a pointer that was not allocated: %p", p);
	Blk *b = (Blk *) p - 1;
	if (b->magic == BLK_DEAD) fail ("double free of a block of %lu bytes", (unsigned long) b->size);
	if (b->magic != BLK_LIVE) fail ("free of a pointer that is not the start of a block");
	blk_check (b);
	b->magic = BLK_DEAD; arena->nlive--; arena->live_bytes -= b->size;
	memset (p, 0xDD, b->size);
	// dead blocks at the top are given back, so that states before and after a temporary allocation coincide
	while (arena_reuse && arena->first && (b = (Blk *) ((char *) arena + arena->first))->magic == BLK_DEAD) { arena->used = arena->first; arena->first = b->next; }
}
extern "C" {
extern char __start_mc_data[] __attribute__ ((weak)), __stop_mc_data[] __attribute__ ((weak));
extern char __start_mc_bss[] __attribute__ ((weak)), __stop_mc_bss[] __attribute__ ((weak));
void *mc_malloc (size_t n) { return arena_alloc (n, false); }
void *mc_calloc (size_t a, size_t b) { size_t n; if (__builtin_mul_overflow (a, b, &n)) return NULL; return arena_alloc (n, true); }
void mc_free (void *p) { arena_free (p); }
void *mc_realloc (void *p, size_t n)
{	if (!p) return arena_alloc (n, false);
	void *q = arena_alloc (n, false); if (!q) return NULL;
	memcpy (q, p, std::min (n, (size_t) ((Blk *) p - 1)->size)); arena_free (p); return q;
}
void *mc_reallocarray (void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow (a, b, &n)) return NULL; return mc_realloc (p, n); }
void *mc_aligned_alloc (size_t al, size_t n) { (void) al; void *p = arena_alloc (n, false); return p; }
int mc_posix_memalign (void **p, size_t al, size_t n) { (void) al; *p = arena_alloc (n, false); return *p ? 0 : ENOMEM; }
char *mc_strdup (const char *s) { char *p = (char *) arena_alloc (strlen (s) + 1, false); if (p) strcpy (p, s); return p; }
}

// ------------------------------------------------------------------ states
struct Seg { char *p; size_t n; };
inline Seg seg_data () { return Seg { __start_mc_data, (size_t) (__stop_mc_data - __start_mc_data) }; }
inline Seg seg_bss () { return Seg { __start_mc_bss, (size_t) (__stop_mc_bss - __start_mc_bss) }; }
inline std::vector<char> init_data, init_bss;
inline void statics_init ()
{	Seg d = seg_data (), b = seg_bss ();
	init_data.assign (d.p, d.p + d.n); init_bss.assign (b.p, b.p + b.n);
}
inline void statics_restore ()
{	Seg d = seg_data (), b = seg_bss ();
	if (d.n) memcpy (d.p, init_data.data (), d.n);
	if (b.n) memcpy (b.p, init_bss.data (), b.n);
}
struct Image {
	std::vector<char> m; size_t used = 0;
	void save ()
	{	Seg d = seg_data (), b = seg_bss (); used = arena->used;
		if (m.size () < used + d.n + b.n) m.resize (used + d.n + b.n);
		memcpy (m.data (), arena, used);
		if (d.n) memcpy (m.data () + used, d.p, d.n);
		if (b.n) memcpy (m.data () + used + d.n, b.p, b.n);
	}
	void restore () const
	{	Seg d = seg_data (), b = seg_bss ();
		memcpy ((void *) arena, m.data (), used);
		if (d.n) memcpy (d.p, m.data () + used, d.n);
		if (b.n) memcpy (b.p, m.data () + used + d.n, b.n);
	}
};
inline uint64_t hash_bytes (const void *vp, size_t n, uint64_t h)
{	const char *p = (const char *) vp;
	const uint64_t K = 0x9E3779B97F4A7C15ull; uint64_t a = h, b = h ^ K, c = h + K, d = ~h;
	auto rd = [] (const char *q) { uint64_t x; memcpy (&x, q, 8); return x; };
	auto mx = [&] (uint64_t x, uint64_t y) { x = (x ^ y) * 0xff51afd7ed558ccdull; return x ^ (x >> 29); };
	while (n >= 32) { a = mx (a, rd (p)); b = mx (b, rd (p+8)); c = mx (c, rd (p+16)); d = mx (d, rd (p+24)); p += 32; n -= 32; }
	while (n >= 8) { a = mx (a, rd (p)); p += 8; n -= 8; }
	while (n) { b = mx (b, (uint8_t) *p); p++; n--; }
	return mx (mx (mx (a, b), c), d) * K;
}
inline uint64_t state_hash (uint64_t extra = 0)
{	Seg d = seg_data (), b = seg_bss ();
	uint64_t h = hash_bytes (arena, arena->used, extra * 0x9E3779B97F4A7C15ull + 12345);
	if (d.n) h = hash_bytes (d.p, d.n, h);
	if (b.n) h = hash_bytes (b.p, b.n, h);
	return h;
}
#else
inline void arena_check () {}
inline void arena_reset () {}
inline void arena_init () {}
inline void statics_init () {}
inline void statics_restore () {}
#endif

struct Visited {
	std::unordered_set<uint64_t> s;
	bool add (uint64_t h) { return s.insert (h).second; }
};
inline uint64_t mix (uint64_t a, uint64_t b) { a = (a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2))) * 0xff51afd7ed558ccdull; return a ^ (a >> 31); }

// ------------------------------------------------------------------ calls
struct R { long used = 0, gen = 0; int err = 0; };
struct InCall { int was; InCall () { was = in_call; opseq = opseq + 1; in_call = 1; cnt.ops++; } ~InCall () { in_call = was; } };	// calls can be nested: a callback may use other converters
inline bool check_request = false;	// C02: nothing of SRC_DATA but the reported counts changes
// The standard wrapper of src_process: traces the call and checks what must hold for every call.
inline R process (SRC_STATE *s, const float *in, long n, float *out, long m, double ratio, int eof, bool quiet = false)
{	SRC_DATA d; memset (&d, 0, sizeof d);
	d.data_in = in; d.data_out = out; d.input_frames = n; d.output_frames = m; d.src_ratio = ratio; d.end_of_input = eof;
	d.input_frames_used = -77; d.output_frames_gen = -78;
	if (!quiet) tr ("src_process (input_frames=%.0f, output_frames=%.0f, src_ratio=%.17g, end_of_input=%.0f)", n, m, ratio, eof);
	R r;
	{ InCall g; r.err = src_process (s, &d); }
	r.used = d.input_frames_used; r.gen = d.output_frames_gen;
	if (r.err == 0)
	{	if (r.used < 0 || r.used > std::max (n, 0l) || r.gen < 0 || r.gen > std::max (m, 0l)) fail ("counts out of range: input_frames_used=%ld of %ld, output_frames_gen=%ld of %ld", r.used, n, r.gen, m);
		if (check_request && (d.data_in != in || d.data_out != out || d.input_frames != std::max (n, 0l) || d.output_frames != std::max (m, 0l) || d.src_ratio != ratio || d.end_of_input != eof)) fail ("the call changed a field of SRC_DATA other than the two counts it reports");
	}
	return r;
}
inline R process_ok (SRC_STATE *s, const float *in, long n, float *out, long m, double ratio, int eof, bool quiet = false)
{	R r = process (s, in, n, out, m, ratio, eof, quiet);
	if (r.err) fail ("src_process returned error %d (%s) for a valid call", r.err, src_strerror (r.err) ? src_strerror (r.err) : "(null)");
	return r;
}
inline SRC_STATE *make (int conv, int ch, bool quiet = false)
{	int e = -1;
	if (!quiet) tr ("src_new (converter=%.0f, channels=%.0f)", conv, ch);
	SRC_STATE *s; { InCall g; s = src_new (conv, ch, &e); }
	if (!s || e) fail ("src_new (%d, %d) failed with error %d", conv, ch, e);
	return s;
}

// ------------------------------------------------------------------ workers
inline int hang_ticks = 25;	// seconds of CPU time inside one API call
inline double deadline = 0;	// the quick tier stops exploring here (a long way beyond its normal time) and says so in the evidence
inline void on_tick (int)
{	if (deadline > 0 && now () > deadline) { sh->timed_out++; flush_counters (); _exit (5); }
	static long last = -1; static int same = 0;
	if (in_call && last == opseq) { if (++same >= hang_ticks) { in_call = 0; fail ("the call did not return within %d s of CPU time", hang_ticks); } }
	else { same = 0; last = opseq; }
}
inline void on_crash (int sig)
{	signal (sig, SIG_DFL);
	fail ("the library crashed with signal %d (%s)", sig, sig == SIGABRT ? "abort/assertion" : sig == SIGSEGV ? "invalid memory access" : sig == SIGFPE ? "arithmetic trap" : "trap");
}
inline void arm ()
{	static char *alt = (char *) malloc (1 << 18);
	stack_t ss; memset (&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = 1 << 18; sigaltstack (&ss, NULL);
	struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_flags = SA_ONSTACK | SA_NODEFER;
#ifndef MC_ASAN
	sa.sa_handler = on_crash;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction (s, &sa, NULL);
#else
	sa.sa_handler = on_crash; sigaction (SIGABRT, &sa, NULL);
#endif
	sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction (SIGVTALRM, &sa, NULL);
	struct itimerval it = {{1,0},{1,0}}; setitimer (ITIMER_VIRTUAL, &it, NULL);
}
inline void run_one (int t)
{	cur_task = t; sh->cur[worker_slot] = t; trace_len = 0; trace_dropped = 0;
	arena_reset (); statics_restore ();
	double t0 = now ();
	tasks[t].run ();
	if (getenv ("MC_PROF") && now () - t0 > 1) fprintf (stderr, "%7.1fs task %d %s\n", now () - t0, t, tasks[t].name.c_str ());
	flush_counters ();
	sh->cur[worker_slot] = -1; sh->finished++;
}
inline pid_t spawn (int slot)
{	fflush (stdout); fflush (stderr);
	pid_t p = fork ();
	if (p) return p;
	worker_slot = slot; arm ();
	for (;;)
	{	int t = sh->next++;
		if (t >= (int) tasks.size () || t > sh->minviol.load ()) _exit (0);
		if (deadline > 0 && now () > deadline) { sh->timed_out++; _exit (5); }
		run_one (t);
	}
}
inline std::string json_escape (const char *s)
{	std::string o;
	for (; *s; s++)
	{	if (*s == '"' || *s == '\\') { o += '\\'; o += *s; }
		else if (*s == '\n') o += "\\n";
		else if (*s == '\t') o += "\\t";
		else if ((unsigned char) *s < 32) o += ' ';
		else o += *s;
	}
	return o;
}
struct Extra { std::string name; int idx; };
inline std::vector<Extra> extra_names;		// names of cnt.extra[] entries reported in the evidence
inline std::string level = "model_checking", rule, explanation;
inline std::vector<std::string> assumptions;
inline std::string build_dir;


inline void write_evidence (double wall, int nviol, int ntasks_done)
{	mkdir ("evidence", 0777);
	std::string fn = "evidence/" + property_id + ".json";
	FILE *f = fopen (fn.c_str (), "w"); if (!f) { perror (fn.c_str ()); return; }
	const char *seed = getenv ("VERIF_SEED");
	fprintf (f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"%s\",\n \"coverage\": {\n", property_id.c_str (), tier.c_str (), seed ? atoi (seed) : 1, level.c_str ());
	fprintf (f, "  \"states\": %ld,\n  \"transitions\": %ld,\n  \"traces_validated_against_impl\": %ld,\n", sh->states.load (), sh->trans.load (), sh->traces.load ());
	fprintf (f, "  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %ld,\n  \"api_calls\": %ld,\n  \"tasks\": %d,\n  \"tasks_finished\": %d,\n", sh->evals.load (), sh->nontriv.load (), sh->ops.load (), (int) tasks.size (), ntasks_done);
	for (auto &e : extra_names) fprintf (f, "  \"%s\": %ld,\n", e.name.c_str (), sh->extra[e.idx].load ());
	fprintf (f, "  \"exhaustive\": %s,\n", ntasks_done == (int) tasks.size () ? "true" : "false");
	fprintf (f, "  \"rule\": \"%s\",\n  \"explanation\": \"%s\",\n  \"samples\": [", json_escape (rule.c_str ()).c_str (), json_escape (explanation.c_str ()).c_str ());
	int ns = std::min (6, sh->nsamples.load ());
	for (int i = 0; i < ns; i++) fprintf (f, "%s\n   \"%s\"", i ? "," : "", json_escape (sh->samples[i]).c_str ());
	if (!ns) fprintf (f, "\n   \"task list: %s ...\"", tasks.size () ? json_escape (tasks[0].name.c_str ()).c_str () : "");
	fprintf (f, "\n  ]\n },\n \"assumptions\": [");
	for (size_t i = 0; i < assumptions.size (); i++) fprintf (f, "%s\n  \"%s\"", i ? "," : "", json_escape (assumptions[i].c_str ()).c_str ());
	fprintf (f, "\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, nviol);
	fclose (f);
}

// Runs one task alone in a fresh process; true when it ends in a violation.
inline bool confirm (int t, Viol *out)
{	sh->nviol = 0; sh->minviol = INT_MAX; sh->next = t;
	int h = hang_ticks; hang_ticks = 2 * h;
	fflush (stdout);
	pid_t p = fork ();
	if (p == 0) { worker_slot = 0; arm (); run_one (t); _exit (0); }
	int st; waitpid (p, &st, 0); hang_ticks = h;
	if (WIFEXITED (st) && WEXITSTATUS (st) == 3 && sh->nviol.load () > 0) { *out = sh->viol[0]; return true; }
	if (WIFSIGNALED (st) || (WIFEXITED (st) && WEXITSTATUS (st) != 0 && WEXITSTATUS (st) != 4))
	{	memset (out, 0, sizeof *out); out->task = t;
		snprintf (out->msg, MSG, "the exploring process ended abnormally (status %x) in this task", st);
		return true;
	}
	return false;
}

inline int main_loop (int argc, char **argv)
{	int only = -1, nw = (int) sysconf (_SC_NPROCESSORS_ONLN); bool list = false;
	for (int i = 1; i < argc; i++)
	{	if (!strcmp (argv[i], "--task")) only = atoi (argv[++i]);
		else if (!strcmp (argv[i], "--list")) list = true;
		else if (!strcmp (argv[i], "--workers")) nw = atoi (argv[++i]);
	}
	if (list) { for (size_t i = 0; i < tasks.size (); i++) printf ("%zu %s\n", i, tasks[i].name.c_str ()); return 0; }
	nw = std::max (1, std::min (nw, 16));
	double t0 = now ();
	FILE *kf = fopen ("known-findings.txt", "r");
	if (kf)
	{	char line[2000];
		while (fgets (line, sizeof line, kf))
		{	char id[32], key[600];
			if (sscanf (line, "finding: property=%31s key=%599[^|\n]", id, key) == 2 && property_id == id)
			{	std::string k = key; while (k.size () && k.back () == ' ') k.pop_back (); known_keys.push_back (k); }
		}
		fclose (kf);
	}
	std::vector<Viol> cands;
	if (only < 0)
	{	sh->next = 0; sh->minviol = INT_MAX;
		const char *lim = getenv ("MC_LIMIT"); double l = lim ? atof (lim) : thorough () ? 0 : 600; if (l > 0) deadline = t0 + l;
		std::vector<pid_t> pid (nw, 0); int alive = 0, abnormal = 0;
		for (int i = 0; i < nw; i++) { sh->cur[i] = -1; pid[i] = spawn (i); alive++; }
		while (alive)
		{	int st; pid_t p = waitpid (-1, &st, 0);
			if (p < 0) { if (errno == EINTR) continue; break; }
			for (int i = 0; i < nw; i++) if (pid[i] == p)
			{	alive--; pid[i] = 0;
				bool clean = WIFEXITED (st) && (WEXITSTATUS (st) == 0 || WEXITSTATUS (st) == 3 || WEXITSTATUS (st) == 4 || WEXITSTATUS (st) == 5);
				if (!clean && sh->cur[i] >= 0)
				{	int t = sh->cur[i];
					fprintf (stderr, "worker died (status %x) in task %d %s\n", st, t, tasks[t].name.c_str ());
					Viol v; memset (&v, 0, sizeof v); v.task = t; snprintf (v.msg, MSG, "process died, status %x", st); cands.push_back (v);
					abnormal++;
				}
				if (!(WIFEXITED (st) && (WEXITSTATUS (st) == 0 || WEXITSTATUS (st) == 5)) && abnormal < 6 && sh->next.load () < (int) tasks.size () && sh->minviol.load () == INT_MAX) { pid[i] = spawn (i); alive++; }
				break;
			}
		}
		for (int i = 0; i < std::min (24, sh->nviol.load ()); i++) cands.push_back (sh->viol[i]);
	}
	else { Viol v; memset (&v, 0, sizeof v); v.task = only; cands.push_back (v); }
	int started = std::min ((int) tasks.size (), sh->next.load ()), done = sh->finished.load (); deadline = 0;
	std::sort (cands.begin (), cands.end (), [] (const Viol &a, const Viol &b) { return a.task < b.task; });
	Viol v; bool bad = false;
	for (size_t i = 0; i < cands.size () && i < 6 && !bad; i++)
	{	for (int k = 0; k < 2 && !bad; k++) bad = confirm (cands[i].task, &v);
		if (!bad) fprintf (stderr, "note: task %d (%s) did not reproduce: %s\n%s", cands[i].task, tasks[cands[i].task].name.c_str (), cands[i].msg, cands[i].trace);
	}
	for (int i = 0; i < std::min (24, sh->nknown.load ()); i++)
	{	bool dup = false; for (int j = 0; j < i; j++) if (!strcmp (sh->known[j], sh->known[i])) dup = true;
		if (!dup) printf ("KNOWN-FINDING: property=%s %s\n", property_id.c_str (), sh->known[i]);
	}
	double wall = now () - t0;
	if (only < 0) write_evidence (wall, bad ? 1 : 0, bad ? started : sh->timed_out.load () ? done : (int) tasks.size ());
	if (sh->timed_out.load ()) printf ("note: stopped after %.0f s with %d of %zu tasks finished\n", wall, done, tasks.size ());
	if (!bad) unlink (("replay/" + property_id + ".txt").c_str ());
	printf ("%s %s: tasks=%zu states=%ld transitions=%ld evaluations=%ld traces=%ld api_calls=%ld wall=%.1fs\n", property_id.c_str (), tier.c_str (), tasks.size (),
		sh->states.load (), sh->trans.load (), sh->evals.load (), sh->traces.load (), sh->ops.load (), wall);
	if (bad)
	{	mkdir ("replay", 0777);
		std::string fn = "replay/" + property_id + ".txt";
		FILE *f = fopen (fn.c_str (), "w");
		if (f)
		{	fprintf (f, "property %s violated\ntask %d: %s\n%s\n\nsequence of API calls:\n%s\nreplay with: python3 run.py %s --tier %s --task %d\n", property_id.c_str (), v.task, tasks[v.task].name.c_str (), v.msg, v.trace, property_id.c_str (), tier.c_str (), v.task);
			fclose (f);
		}
		printf ("task %d (%s): %s\n", v.task, tasks[v.task].name.c_str (), v.msg);
		printf ("VIOLATION property=%s replay=%s\n", property_id.c_str (), fn.c_str ());
		return 1;
	}
	return 0;
}
inline void add (const std::string &name, std::function<void()> f) { tasks.push_back (Task { name, f }); }
inline std::string str (const char *fmt, ...)
{	char b[2000]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap); return b; }
} // namespace mc

#ifdef MC_ASAN
extern "C" void __sanitizer_set_death_callback (void (*) (void));
extern "C" const char *__asan_default_options () { return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:print_summary=1"; }
#endif
void setup_tasks ();	// each check defines this: sets mc::property_id, fills mc::tasks
int main (int argc, char **argv)
{	const char *t = getenv ("VERIF_TIER");
	if (t && !strcmp (t, "thorough")) mc::tier = "thorough";
	for (int i = 1; i < argc; i++) if (!strcmp (argv[i], "--tier") && i + 1 < argc) mc::tier = argv[i+1];
	mc::sh = (mc::Shared *) mmap (NULL, sizeof (mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	mc::sh->minviol = INT_MAX;
	mc::arena_init (); mc::statics_init ();
#ifdef MC_ASAN
	__sanitizer_set_death_callback ([] () { mc::fail ("memory error or undefined behaviour reported by the sanitizer"); });
#endif
	setup_tasks ();
	if (const char *k = getenv ("MC_STRIDE"))	// development only: a part of the tasks
	{	std::vector<mc::Task> v; for (size_t i = 0; i < mc::tasks.size (); i += atoi (k)) v.push_back (mc::tasks[i]); mc::tasks = v; }
	return mc::main_loop (argc, argv);
}
