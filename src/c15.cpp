// C15: converters are independent, also when used from several threads.
// The library is compiled so that every memory access calls one of the hooks below.  Two thread programs run under a
// scheduler of our own (one real thread at a time).  Accesses are recorded; as long as no address is touched by both threads
// with at least one write, all interleavings are equivalent and one execution per order decides them all (partial-order
// reduction).  Where threads do conflict, every schedule with up to the bounded number of preemptions, placed at the
// conflicting accesses, is executed and the results are compared with those of the program running alone.
#include "ops.hpp"
#include <pthread.h>
#include <semaphore.h>
using namespace mc;

// ------------------------------------------------------------------ access hooks
static thread_local int me = -1; static thread_local uintptr_t stk_lo, stk_hi;
static bool recording = false; static std::unordered_map<uintptr_t, uint8_t> acc_map;	// granule -> bits: read/write by thread 0, 1, 2
static std::unordered_set<uintptr_t> conflicts; static long naccess = 0;
static void sched_point ();
static inline void access (const void *pv, size_t n, bool wr)
{	if (me < 0) return;
	uintptr_t p = (uintptr_t) pv; if ((p >= stk_lo && p < stk_hi) || n == 0) return;
	bool hot = false; naccess++;
	if (recording || !conflicts.empty ())
		for (uintptr_t g = p >> 2; g <= (p + n - 1) >> 2; g++)
		{	if (recording) acc_map[g] |= (wr ? 2 : 1) << (2 * me);
			if (!hot && !conflicts.empty () && conflicts.count (g)) hot = true;
		}
	if (hot) sched_point ();
}
extern "C" {
void __tsan_init () {} void __tsan_func_entry (void *) {} void __tsan_func_exit () {}
#define RW(n) void __tsan_read##n (void *p) { access (p, n, false); } void __tsan_write##n (void *p) { access (p, n, true); } \
	void __tsan_unaligned_read##n (void *p) { access (p, n, false); } void __tsan_unaligned_write##n (void *p) { access (p, n, true); } \
	void __tsan_volatile_read##n (void *p) { access (p, n, false); } void __tsan_volatile_write##n (void *p) { access (p, n, true); } \
	void __tsan_unaligned_volatile_read##n (void *p) { access (p, n, false); } void __tsan_unaligned_volatile_write##n (void *p) { access (p, n, true); }
RW (1) RW (2) RW (4) RW (8) RW (16)
void __tsan_read_range (void *p, size_t n) { access (p, n, false); } void __tsan_write_range (void *p, size_t n) { access (p, n, true); }
void __tsan_vptr_update (void **p, void *) { access (p, 8, true); } void __tsan_vptr_read (void **p) { access (p, 8, false); }
#define AT(n, T) T __tsan_atomic##n##_load (const T *p, int) { access (p, n / 8, false); return __atomic_load_n (p, 5); } \
	void __tsan_atomic##n##_store (T *p, T v, int) { access (p, n / 8, true); __atomic_store_n (p, v, 5); } \
	T __tsan_atomic##n##_exchange (T *p, T v, int) { access (p, n / 8, true); return __atomic_exchange_n (p, v, 5); } \
	T __tsan_atomic##n##_fetch_add (T *p, T v, int) { access (p, n / 8, true); return __atomic_fetch_add (p, v, 5); } \
	T __tsan_atomic##n##_fetch_sub (T *p, T v, int) { access (p, n / 8, true); return __atomic_fetch_sub (p, v, 5); } \
	T __tsan_atomic##n##_fetch_or (T *p, T v, int) { access (p, n / 8, true); return __atomic_fetch_or (p, v, 5); } \
	T __tsan_atomic##n##_fetch_and (T *p, T v, int) { access (p, n / 8, true); return __atomic_fetch_and (p, v, 5); } \
	T __tsan_atomic##n##_fetch_xor (T *p, T v, int) { access (p, n / 8, true); return __atomic_fetch_xor (p, v, 5); } \
	int __tsan_atomic##n##_compare_exchange_strong (T *p, T *e, T v, int, int) { access (p, n / 8, true); return __atomic_compare_exchange_n (p, e, v, 0, 5, 5); } \
	int __tsan_atomic##n##_compare_exchange_weak (T *p, T *e, T v, int, int) { access (p, n / 8, true); return __atomic_compare_exchange_n (p, e, v, 0, 5, 5); } \
	T __tsan_atomic##n##_compare_exchange_val (T *p, T e, T v, int, int) { access (p, n / 8, true); __atomic_compare_exchange_n (p, &e, v, 0, 5, 5); return e; }
AT (8, uint8_t) AT (16, uint16_t) AT (32, uint32_t) AT (64, uint64_t)
void __tsan_atomic_thread_fence (int) {} void __tsan_atomic_signal_fence (int) {}
void *mc_memcpy (void *d, const void *s, size_t n) { access (s, n, false); access (d, n, true); return memcpy (d, s, n); }
void *mc_memmove (void *d, const void *s, size_t n) { access (s, n, false); access (d, n, true); return memmove (d, s, n); }
void *mc_memset (void *d, int c, size_t n) { access (d, n, true); return memset (d, c, n); }
int mc_memcmp (const void *a, const void *b, size_t n) { access (a, n, false); access (b, n, false); return memcmp (a, b, n); }
}

// ------------------------------------------------------------------ thread programs
struct Prog { int conv, ch; bool cb; std::vector<Op> ops; std::vector<int> extra; };	// extra: 1 clone in the middle, 2 src_simple, 3 conversions, 4 introspection
static std::string prog_str (const Prog &p)
{	std::string s = str ("%s/%d%s", conv_name (p.conv), p.ch, p.cb ? "/callback" : ""); for (int e : p.extra) s += e == 1 ? "+clone" : e == 2 ? "+simple" : e == 3 ? "+convert" : "+names"; return s; }
struct Thread { const Prog *p; Env env; Log log; pthread_t t; sem_t go; bool done; SRC_STATE *given = NULL; };
static Thread th[3]; static sem_t ctl; static int cur, nthr; static long points; static std::vector<std::pair<long, int>> plan; static size_t plan_at;
static long run_steps;
static void run_prog (const Prog &p, Env &e, Log &log, int id, SRC_STATE *given = NULL)
{	int err = -1; Src src; e.reader = &src; env_now = &e; SRC_STATE *s, *c = NULL; Src csrc;
	tr (p.cb ? "thread %.0f: src_callback_new (converter=%.0f, channels=%.0f)" : "thread %.0f: src_new (converter=%.0f, channels=%.0f)", id, p.conv, p.ch);
	if (given) { s = given; err = 0; src.pos = 150; src.blk = 0; } else s = p.cb ? src_callback_new (env_callback, p.conv, p.ch, &err, &e) : src_new (p.conv, p.ch, &err);
	log.i (err); if (!s) fail ("creating a converter failed with error %d", err);
	bool cl = false, simple = false, conv = false, names = false; for (int x : p.extra) { if (x == 1) cl = true; if (x == 2) simple = true; if (x == 3) conv = true; if (x == 4) names = true; }
	for (size_t k = 0; k < p.ops.size (); k++)
	{	tr ("thread %.0f:", id);
		apply (e, s, src, p.ops[k], &log);
		if (cl && k == p.ops.size () / 2) { tr ("thread %.0f: src_clone", id); c = src_clone (s, &err); log.i (err); csrc = src; if (!c) fail ("src_clone failed"); }
		else if (c) apply (e, c, csrc, p.ops[k], &log);
		if (simple) { SRC_DATA d; memset (&d, 0, sizeof d); std::vector<float> o (60 * p.ch); d.data_in = e.x.data (); d.data_out = o.data (); d.input_frames = 40; d.output_frames = 50; d.src_ratio = 1.2; tr ("thread %.0f: src_simple", id); log.i (src_simple (&d, p.conv, p.ch)); log.i (d.output_frames_gen); log.f (o.data (), d.output_frames_gen * p.ch); }
		if (conv) { short sb[70]; int ib[70]; float fb[70]; src_float_to_short_array (e.x.data (), sb, 70); src_float_to_int_array (e.x.data (), ib, 70); for (int j = 0; j < 70; j++) { log.i (sb[j]); log.i (ib[j]); } src_short_to_float_array (sb, fb, 70); log.f (fb, 70); src_int_to_float_array (ib, fb, 70); log.f (fb, 70); }
		if (names) { for (int j = -1; j < 26; j++) { const char *t = src_get_name (j); log.i (t ? (long) hash_bytes (t, strlen (t), 1) : 0); t = src_get_description (j); log.i (t ? (long) hash_bytes (t, strlen (t), 1) : 0); t = src_strerror (j); log.i (t ? (long) hash_bytes (t, strlen (t), 1) : 0); } log.i (src_is_valid_ratio (0.001)); log.i (hash_bytes (src_get_version (), strlen (src_get_version ()), 3)); }
	}
	tr ("thread %.0f: src_delete", id);
	if (c) src_delete (c);
	src_delete (s);
}
static void switch_to (int t) { int self = me; cur = t; sem_post (&th[t].go); while (sem_wait (&th[self].go)) ; }
static void sched_point ()
{	long n = points++;
	if (++run_steps > 20000000) fail ("internal: runaway schedule");
	if (plan_at < plan.size () && plan[plan_at].first == n)
	{	int t = plan[plan_at++].second;
		if (t != me && !th[t].done) { tr ("[scheduling point %.0f: thread %.0f is preempted, thread %.0f runs]", n, me, t); switch_to (t); }
	}
}
static void *thread_main (void *a)
{	Thread *T = (Thread *) a; int id = T - th;
	pthread_attr_t at; pthread_getattr_np (pthread_self (), &at); void *sp; size_t sz; pthread_attr_getstack (&at, &sp, &sz); pthread_attr_destroy (&at);
	stk_lo = (uintptr_t) sp; stk_hi = stk_lo + sz;
	while (sem_wait (&T->go)) ;
	me = id; run_prog (*T->p, T->env, T->log, id, T->given); me = -1;
	T->done = true;
	for (int k = 1; k < nthr; k++) { int t = (id + k) % nthr; if (!th[t].done) { cur = t; sem_post (&th[t].go); return NULL; } }
	sem_post (&ctl);
	return NULL;
}
// One execution of the threads under the plan of preemptions; `first` starts.
static void make_family (int n); static int family_size = 0;	// > 0: the threads use a converter and its clones
static void execute (const std::vector<const Prog *> &ps, int first, const std::vector<std::pair<long, int>> &pl, int member = 0)
{	arena_reset (); statics_restore (); trace_len = 0; nthr = ps.size (); std::vector<SRC_STATE *> unused;
	for (auto &T : th) T.given = NULL;
	if (family_size) { make_family (family_size); if (nthr == 1) { SRC_STATE *m = th[member].given; for (int i = 0; i < family_size; i++) if (i != member) unused.push_back (th[i].given); th[0].given = m; } } points = 0; plan = pl; plan_at = 0; run_steps = 0;
	sem_init (&ctl, 0, 0);
	pthread_attr_t at; pthread_attr_init (&at); pthread_attr_setstacksize (&at, 1 << 20);
	for (int i = 0; i < nthr; i++) { Thread &T = th[i]; T.p = ps[i]; T.log = Log (); T.done = false; sem_init (&T.go, 0, 0); if (T.env.x.empty () || T.env.ch != ps[i]->ch) T.env.init (ps[i]->ch); T.env.script.blocks = { 100, 3, 57, 200, 1, 90, 0 }; if (pthread_create (&T.t, &at, thread_main, &T)) fail ("internal: pthread_create"); }
	pthread_attr_destroy (&at);
	cur = first; sem_post (&th[first].go); while (sem_wait (&ctl)) ;
	for (int i = 0; i < nthr; i++) pthread_join (th[i].t, NULL);
	cnt.traces++; cnt.trans += ps[0]->ops.size () * nthr; cnt.states++; cnt.nontriv++;
	for (auto q : unused) src_delete (q);
	if (arena->nlive) fail ("%lu blocks are left allocated after both threads have deleted their converters", (unsigned long) arena->nlive);
}
// A family of converters made by cloning: a converter with some history and its clones, one for every thread.
static Prog family_root; static Env fam_env;
static void make_family (int n)
{	int err = 0; Src src; if (fam_env.x.empty () || fam_env.ch != family_root.ch) fam_env.init (family_root.ch);
	tr ("src_new (converter=%.0f, channels=%.0f)", family_root.conv, family_root.ch);
	SRC_STATE *s = src_new (family_root.conv, family_root.ch, &err); if (!s) fail ("creating a converter failed");
	apply (fam_env, s, src, P (150, 20, 0.8), NULL); th[0].given = s;
	for (int i = 1; i < n; i++) { tr ("src_clone, for thread %.0f", i); th[i].given = src_clone (s, &err); if (!th[i].given) fail ("src_clone failed"); }
}
static bool find_conflicts (int n)
{	bool grew = false;
	for (auto &a : acc_map)
	{	bool bad = false;
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (a.second >> (2 * i) & 2) && (a.second >> (2 * j) & 3)) bad = true;
		if (bad && conflicts.insert (a.first).second) grew = true;
	}
	return grew;
}
static void threads (std::vector<Prog> ps, int bound, bool fam = false)
{	std::string nm = fam ? " a converter and its clones:" : ""; for (auto &p : ps) nm += " " + prog_str (p);
	add (str ("threads:%s", nm.c_str ()), [=] () {
		family_size = fam ? ps.size () : 0; if (fam) family_root = ps[0];
		arena_reuse = false;	// so that blocks of different threads never share an address
		std::vector<const Prog *> pp; for (auto &p : ps) pp.push_back (&p); int n = ps.size ();
		std::vector<Log> alone (n); conflicts.clear (); acc_map.clear ();
		for (int i = 0; i < n; i++) { recording = false; execute ({ pp[i] }, 0, {}, i); alone[i] = th[0].log; }
		auto check = [&] () { for (int i = 0; i < n; i++) compare (alone[i], th[i].log, str ("thread %d (%s) running with the others, against running alone", i, prog_str (ps[i]).c_str ()).c_str ()); };
		long execs = 0, cap = thorough () ? 60000 : 6000;
		for (int round = 0; round < 6; round++)
		{	// all orders of whole threads, recording
			recording = true; acc_map.clear (); naccess = 0;
			for (int f = 0; f < n; f++) { acc_map.clear (); execute (pp, f, {}); check (); find_conflicts (n); cnt.extra[0] += acc_map.size (); }
			cnt.extra[3] += naccess;
			if (conflicts.empty ()) { cnt.extra[1]++; break; }	// no dependent accesses: every interleaving is equivalent
			size_t known = conflicts.size ();
			// bounded preemption search at the conflicting accesses
			std::function<void(std::vector<std::pair<long, int>>, int, int)> search = [&] (std::vector<std::pair<long, int>> pl, int first, int left)
			{	if (execs >= cap) { cnt.extra[2]++; return; }
				execs++; recording = execs < 200; if (recording) acc_map.clear ();
				execute (pp, first, pl); check (); long total = points;
				if (recording) find_conflicts (n);
				if (!left) return;
				long from = pl.empty () ? 0 : pl.back ().first + 1;
				for (long k = from; k < total; k++) for (int t = 0; t < n; t++) { auto p2 = pl; p2.push_back ({ k, t }); if (execs < cap) search (p2, first, left - 1); }
			};
			for (int b = 1; b <= bound; b++) for (int f = 0; f < n; f++) search ({}, f, b);
			if (conflicts.size () == known) break;
		}
		recording = false; conflicts.clear (); acc_map.clear ();
		sample_trace ("two threads, one after the other");
	});
}
// ------------------------------------------------------------------ all interleavings of whole calls, in one thread
static void interleave (std::vector<Prog> ps)
{	std::string nm; for (auto &p : ps) nm += " " + prog_str (p);
	add (str ("interleaved calls:%s", nm.c_str ()), [=] () {
		arena_reuse = true;
		struct St { SRC_STATE *s = NULL; Src src; size_t at = 0; Log log; };
		int n = ps.size (); std::vector<Env> env (n); std::vector<Log> alone (n);
		for (int i = 0; i < n; i++) { env[i].init (ps[i].ch); env[i].script.blocks = { 100, 3, 57, 200, 1, 90, 0 }; }
		// step k of a program: creation, its operations, deletion
		auto step = [&] (int i, St &t)
		{	const Prog &p = ps[i]; int err = 0; env_now = &env[i]; env[i].reader = &t.src;
			if (t.at == 0) { tr ("converter %.0f: created", i); InCall g; t.s = p.cb ? src_callback_new (env_callback, p.conv, p.ch, &err, &env[i]) : src_new (p.conv, p.ch, &err); if (!t.s) fail ("creation failed with %d", err); t.log.i (err); }
			else if (t.at <= p.ops.size ()) { tr ("converter %.0f:", i); apply (env[i], t.s, t.src, p.ops[t.at - 1], &t.log); }
			else { tr ("converter %.0f: src_delete", i); InCall g; src_delete (t.s); t.s = NULL; }
			t.at++;
		};
		for (int i = 0; i < n; i++) { arena_reset (); statics_restore (); St t; while (t.at < ps[i].ops.size () + 2) step (i, t); alone[i] = t.log; }
		arena_reset (); statics_restore (); std::vector<Image> img;
		std::function<void(int, std::vector<St>)> dfs = [&] (int d, std::vector<St> st)
		{	while ((int) img.size () <= d) img.emplace_back ();
			img[d].save (); int tl = trace_len; bool any = false;
			for (int i = 0; i < n; i++) if (st[i].at < ps[i].ops.size () + 2)
			{	any = true; img[d].restore (); trace_len = tl; auto s2 = st; step (i, s2[i]); cnt.states++; cnt.nontriv++;
				if (s2[i].at == ps[i].ops.size () + 2) compare (alone[i], s2[i].log, str ("converter %d (%s) used in turn with others, against being used alone", i, prog_str (ps[i]).c_str ()).c_str ());
				dfs (d + 1, s2);
			}
			if (!any) { cnt.traces++; if (arena->nlive) fail ("%lu blocks left allocated", (unsigned long) arena->nlive); if (cnt.traces == 3) sample_trace ("interleaving of whole calls"); }
			trace_len = tl;
		};
		trace_len = 0; dfs (0, std::vector<St> (n));
	});
}
// ------------------------------------------------------------------ nested: a callback that uses another converter
static std::function<void ()> nest_hook;
static long nesting_callback (void *u, float **d) { Env *e = (Env *) u; long n = env_callback (u, d); nest_hook (); env_now = e; return n; }
static void nested (Prog pa, Prog pb)
{	add (str ("nested: the callback of %s uses %s", prog_str (pa).c_str (), prog_str (pb).c_str ()), [=] () {
		arena_reuse = true; Env ea, eb; ea.init (pa.ch); eb.init (pb.ch); ea.script.blocks = { 100, 57, 200, 90, 0 }; eb.script.blocks = { 100, 3, 57, 200, 1, 90, 0 };
		size_t SB = pb.ops.size () + 2, inv = 0; Log alone_a, alone_b, la, lb;
		auto run = [&] (const std::vector<int> &at, bool do_a, bool do_b)	// at[k]: invocation of A's callback in which step k of B is made
		{	arena_reset (); statics_restore (); trace_len = 0; la = Log (); lb = Log (); SRC_STATE *a = NULL, *b = NULL; Src sa, sb; size_t kb = 0; inv = 0; int err = 0; cnt.traces++; cnt.nontriv++;
			auto step_b = [&] ()
			{	env_now = &eb; eb.reader = &sb;
				if (kb == 0) { tr ("other converter: created"); InCall g; b = pb.cb ? src_callback_new (env_callback, pb.conv, pb.ch, &err, &eb) : src_new (pb.conv, pb.ch, &err); if (!b) fail ("creation failed with %d", err); lb.i (err); }
				else if (kb <= pb.ops.size ()) { tr ("other converter:"); apply (eb, b, sb, pb.ops[kb - 1], &lb); }
				else { tr ("other converter: src_delete"); InCall g; src_delete (b); b = NULL; }
				kb++; };
			nest_hook = [&] () { if (do_b) while (kb < SB && at[kb] <= (int) inv) { tr ("[in the callback]"); step_b (); } inv++; };
			if (do_a)
			{	env_now = &ea; ea.reader = &sa; tr ("src_callback_new (converter=%.0f, channels=%.0f)", pa.conv, pa.ch); a = src_callback_new (nesting_callback, pa.conv, pa.ch, &err, &ea); if (!a) fail ("creation failed with %d", err);
				for (auto &o : pa.ops) { apply (ea, a, sa, o, &la); cnt.states++; } }
			if (do_b) while (kb < SB) step_b ();
			if (do_a) src_delete (a);
			if (arena->nlive) fail ("%lu blocks left allocated", (unsigned long) arena->nlive);
		};
		run ({}, true, false); alone_a = la; int M = inv; run (std::vector<int> (SB, 0), false, true); alone_b = lb;
		std::vector<int> at (SB);
		std::function<void (size_t, int)> place = [&] (size_t k, int from)
		{	if (k == SB)
			{	run (at, true, true); compare (alone_a, la, "a converter whose callback uses another one, against being used alone"); compare (alone_b, lb, "a converter used in the callback of another one, against being used alone");
				if (cnt.traces == 40) sample_trace ("a callback that uses another converter"); return; }
			for (int i = from; i <= M; i++) { at[k] = i; place (k + 1, i); }	// M: after A's last invocation
		};
		place (0, 0);
	});
}
// ------------------------------------------------------------------ a chain of converters, each the source of the next one
struct Link { SRC_STATE *s; int conv, ch; double r; long want; Link *from; std::vector<float> buf; Log log; std::vector<std::vector<float>> given; size_t at; std::vector<long> asked; long raw, blk; bool replay; };
static long link_cb (void *u, float **d)
{	Link *l = (Link *) u; long n;
	if (l->replay) { if (l->at >= l->given.size ()) fail ("a converter of the chain asks for a block more when used alone"); std::vector<float> &g = l->given[l->at++]; l->buf = g; *d = l->buf.empty () ? NULL : l->buf.data (); return (long) g.size () / l->ch; }
	l->buf.assign (l->want * l->ch + 1, 0);
	if (l->from) { Link *f = l->from; { InCall g; n = src_callback_read (f->s, f->r, l->want, l->buf.data ()); } f->asked.push_back (l->want); f->log.i (n); f->log.i (src_error (f->s)); if (n < 0 || n > l->want) fail ("src_callback_read returned %ld of %ld", n, l->want); f->log.f (l->buf.data (), n * f->ch); cnt.trans++; }
	else { n = std::min (l->want, l->raw); for (long i = 0; i < n * l->ch; i++) l->buf[i] = sig (i % l->ch, l->raw - i / l->ch); l->raw -= n; }
	l->given.emplace_back (l->buf.begin (), l->buf.begin () + n * l->ch); *d = n ? l->buf.data () : NULL; return n;
}
static void chain (int ch, std::vector<int> kinds, std::vector<double> rs, int depth, int clones)
{	add (str ("chain of %d converters (%s first), ch=%d, each read in the callback of the next%s", depth, conv_name (kinds[0]), ch, clones ? ", some of them clones" : ""), [=] () {
		arena_reuse = true; check_each = false; std::vector<Link> L (depth); arena_reset (); statics_restore (); trace_len = 0; int err = 0; const long wants[] = { 40, 7, 100, 23 };
		tr ("a chain of %.0f converters, each one's callback reads from the one before", depth);
		for (int k = 0; k < depth; k++)
		{	Link &l = L[k]; l.conv = kinds[k % kinds.size ()]; l.ch = ch; l.r = rs[k % rs.size ()]; l.want = wants[k % 4]; l.from = k ? &L[k - 1] : NULL; l.raw = 400; l.at = 0; l.replay = false; InCall g; l.s = src_callback_new (link_cb, l.conv, ch, &err, &l); if (!l.s) fail ("creation failed with %d", err);
			if (clones && k % 2) { SRC_STATE *c = src_clone (l.s, &err); if (!c) fail ("src_clone failed"); src_delete (l.s); l.s = c; } }
		std::vector<float> out (50 * ch); Link &last = L[depth - 1]; int zeros = 0;
		for (int k = 0; k < 3000 && zeros < 2; k++)
		{	tr ("src_callback_read (the last of the chain, 50 frames)"); long g; { InCall ic; g = src_callback_read (last.s, last.r, 50, out.data ()); } trace_len = 1; if (g < 0 || g > 50) fail ("src_callback_read returned %ld", g);
			last.asked.push_back (50); last.log.i (g); last.log.i (src_error (last.s)); last.log.f (out.data (), g * ch); zeros = g ? 0 : zeros + 1; cnt.trans++; }
		for (auto &l : L) { InCall g; src_delete (l.s); } arena_check (); if (arena->nlive) fail ("%lu blocks left allocated", (unsigned long) arena->nlive);
		long total = 0;
		for (int k = 0; k < depth; k++)	// each of them again, alone, with the blocks it was given
		{	Link &l = L[k]; l.replay = true; Log log; tr ("converter %.0f of the chain (%.0f) again, alone", k, l.conv); { InCall g; l.s = src_callback_new (link_cb, l.conv, ch, &err, &l); } if (!l.s) fail ("creation failed with %d", err);
			for (long m : l.asked) { out.assign (m * ch, 0); long g; { InCall ic; g = src_callback_read (l.s, l.r, m, out.data ()); } log.i (g); log.i (src_error (l.s)); log.f (out.data (), std::max (0l, g) * ch); total += g; cnt.trans++; }
			compare (log, l.log, "a converter in a chain of converters, against being used alone"); src_delete (l.s); cnt.states++; cnt.nontriv++; }
		if (total < depth) fail ("nothing comes through the chain");
		cnt.traces++; sample_trace ("chain of converters");
	});
}
// ------------------------------------------------------------------ very many converters alive at the same time, used in turn
static void crowd (std::vector<Prog> ps, long N)
{	add (str ("%ld converters at the same time, %s and others, used in turn", N, prog_str (ps[0]).c_str ()), [=] () {
		arena_reuse = true; check_each = false;
		struct St { SRC_STATE *s; Src src; Log log; size_t at; };
		int n = ps.size (); std::vector<Env> env (n); std::vector<Log> alone (n); std::vector<std::vector<size_t>> upto (n);
		for (int i = 0; i < n; i++) { env[i].init (ps[i].ch); env[i].script.blocks = { 100, 3, 57, 200, 1, 90, 0 }; }
		auto create = [&] (int i) { int err = 0; SRC_STATE *s; env_now = &env[i]; { InCall g; s = ps[i].cb ? src_callback_new (env_callback, ps[i].conv, ps[i].ch, &err, &env[i]) : src_new (ps[i].conv, ps[i].ch, &err); } if (!s) fail ("creation failed with %d", err); return s; };
		for (int i = 0; i < n; i++)
		{	arena_reset (); statics_restore (); St t {}; t.s = create (i);
			for (auto &o : ps[i].ops) { apply (env[i], t.s, t.src, o, &t.log); upto[i].push_back (t.log.v.size ()); }
			src_delete (t.s); alone[i] = t.log; }
		arena_reset (); statics_restore (); trace_len = 0;
		std::vector<St> all (N); tr ("%.0f converters are created (some by cloning)", N); int tl = trace_len;
		for (long k = 0; k < N; k++)
		{	St &t = all[k]; int i = k % n; t.at = 0; t.src = Src ();
			if (k >= n && k / n % 3 == 2) { int err = 0; InCall g; t.s = src_clone (all[k - n].s, &err); if (!t.s) fail ("src_clone failed with %d", err); } else t.s = create (i);
			cnt.states++; cnt.nontriv++; }
		auto one = [&] (long k)
		{	St &t = all[k]; int i = k % n; if (!t.s || t.at >= ps[i].ops.size ()) return; trace_len = tl; tr ("converter %.0f of them, its operation %.0f:", k, t.at);
			apply (env[i], t.s, t.src, ps[i].ops[t.at], &t.log); cnt.states++; cnt.nontriv++;
			size_t from = t.at ? upto[i][t.at - 1] : 0; Log a, b; a.v.assign (alone[i].v.begin () + from, alone[i].v.begin () + upto[i][t.at]); b.v = t.log.v;
			compare (a, b, str ("converter %ld (%s), one of %ld in use, against being used alone", k, prog_str (ps[i]).c_str (), N).c_str ());
			std::vector<uint32_t> ().swap (t.log.v); t.at++; };
		for (long k = 0; k < N; k++) one (k);
		for (long k = 1; k < N; k += 3) { src_delete (all[k].s); all[k].s = NULL; }
		arena_check ();
		for (long k = N - 1; k >= 0; k--) one (k);
		for (long k = 0; k < N; k++) { one (k); one (k); if (all[k].s && k % 2) { src_delete (all[k].s); all[k].s = NULL; } }
		arena_check ();
		for (long k = 0; k < N; k++) if (all[k].s) src_delete (all[k].s);
		if (arena->nlive) fail ("%lu blocks left allocated", (unsigned long) arena->nlive);
		cnt.traces++; sample_trace ("many converters at the same time");
	});
}
void setup_tasks ()
{	property_id = "C15"; bool T = thorough (); log_error = true;
	rule = "A case is one execution of two or three thread programs under one schedule, or one interleaving of whole calls of several converters; results of every program are compared bit for bit with those of the program running alone.";
	explanation = "Dynamic partial-order exploration of the real code: every memory access of the library is recorded; without conflicting accesses between the threads all interleavings are equivalent, with conflicts all schedules up to the preemption bound at the conflicting accesses are executed. Whole-call interleavings in one thread are enumerated completely.";
	extra_names = { { "shared_or_private_granules_recorded", 0 }, { "program_pairs_without_any_conflicting_access", 1 }, { "searches_cut_off_by_budget", 2 }, { "memory_accesses_monitored", 3 } };
	assumptions = { "preemption bound 2 at the conflicting accesses; malloc and free are thread safe and their bookkeeping is not counted as a conflict" };
	auto mk = [] (int conv, int ch, bool cb, int var, std::vector<int> extra) -> Prog
	{	bool sc = is_sinc (conv); long a = sc ? 90 : 6; Prog p { conv, ch, cb, {}, extra };
		if (cb) p.ops = var ? std::vector<Op> { Rd (7, 1.0), Rd (40, 0.6), K (RESET), Rd (9, 2.0) } : std::vector<Op> { Rd (30, 0.8), K (SETR, 2.0), Rd (80, 1.0), Rd (900, 1.0) };
		else p.ops = var ? std::vector<Op> { P (a, 30, 1.0), K (SETR, 0.5), P (a, 20, 0.7), P (3, 200, 0.7, 1) } : std::vector<Op> { P (a, 20, 0.8), P (a, 30, 1.9), K (RESET), P (a / 2, 100, 1.2, 1) };
		return p; };
	std::vector<Prog> all; for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 5, 6 }) for (int cb = 0; cb < 2; cb++) { if (conv == MED && ch > 2 && !T) continue; all.push_back (mk (conv, ch, cb, 0, { })); }
	// same kind twice (different arguments), and every pair of kinds
	for (auto &p : all) { Prog q = mk (p.conv, p.ch, p.cb, 1, { 1 }); threads ({ p, q }, 2); threads ({ mk (p.conv, p.ch, p.cb, 0, { 1, 2, 3, 4 }), mk (p.conv, p.ch, !p.cb, 1, { 2, 3, 4 }) }, 2); }
	for (size_t i = 0; i < all.size (); i++) for (size_t j = i + 1; j < all.size (); j++) if (T || (i * 7 + j * 3) % 4 == 0 || all[i].conv == all[j].conv) threads ({ all[i], all[j] }, 2);
	for (int ch : { 16, 128 }) threads ({ mk (FAST, ch, false, 0, {}), mk (FAST, ch, false, 1, {}) }, 2);
	threads ({ mk (FAST, 3, false, 0, {}), mk (FAST, 5, false, 1, {}), mk (FAST, 3, true, 0, {}) }, 1);
	threads ({ mk (LIN, 2, false, 0, {}), mk (LIN, 2, false, 1, {}), mk (ZOH, 2, true, 0, {}) }, 1);
	threads ({ mk (FAST, 2, false, 0, {}), mk (MED, 2, false, 1, {}), mk (FAST, 2, true, 1, {}) }, 1);
	for (int conv : { LIN, ZOH, FAST, MED }) for (int ch : { 1, 2, 3, 4, 6 }) { if (conv == MED && ch > 2 && !T) continue; threads ({ mk (conv, ch, false, 0, {}), mk (conv, ch, false, 1, { 1 }) }, 2, true); }
	threads ({ mk (FAST, 3, false, 0, {}), mk (FAST, 3, false, 1, {}), mk (FAST, 3, false, 0, { 1 }) }, 1, true);
	for (int ca : { LIN, ZOH, FAST, MED }) for (int cha : { 1, 2, 3 }) for (int cb : { LIN, ZOH, FAST, MED }) for (int mode = 0; mode < 2; mode++)
	{	if (!T && (ca == MED || cb == MED) && (ca != cb || cha > 1)) continue;
		for (int same = 0; same < 2; same++) { if (same && ca != cb && !T) continue; Prog a = mk (ca, cha, true, 0, {}), b = mk (cb, same ? cha : (cha + 1) % 6 + 1, mode, 1, {}); a.ops = { Rd (60, 0.8), Rd (250, 1.3), Rd (900, 1.0) }; if (!T) b.ops.resize (3); nested (a, b); } }
	for (int ch : { 1, 2, 3, 4, 6 }) for (int clones = 0; clones < 2; clones++) for (int depth : { 2, 3, 4, 5, 8, 16, 33, 70 })
	{	chain (ch, { LIN }, { 1.0, 0.9, 1.2 }, depth, clones); chain (ch, { ZOH }, { 1.1, 0.95 }, depth, clones); chain (ch, { FAST }, { 1.0, 1.1 }, depth, clones); chain (ch, { FAST, LIN, ZOH, MED }, { 1.0, 1.2, 0.9 }, depth, clones); if (ch == 1) chain (ch, { MED }, { 0.9, 1.1 }, depth, clones); }
	for (size_t i = 0; i < all.size (); i++) for (size_t j = i; j < all.size (); j++)
	{	if (!T && all[i].conv != all[j].conv && (i + j) % 3) continue;
		interleave ({ all[i], mk (all[j].conv, all[j].ch, all[j].cb, 1, {}) }); }
	for (int conv : { LIN, ZOH }) crowd ({ mk (conv, 1, false, 0, {}), mk (conv, 2, false, 1, {}), mk (conv, 3, true, 0, {}), mk (LIN + ZOH - conv, 1, true, 1, {}) }, 70000);
	crowd ({ mk (FAST, 1, false, 0, {}), mk (FAST, 2, false, 1, {}), mk (FAST, 3, true, 0, {}), mk (FAST, 1, true, 1, {}) }, T ? 20000 : 5000);
	crowd ({ mk (MED, 1, false, 0, {}), mk (FAST, 4, false, 1, {}), mk (MED, 2, true, 1, {}), mk (LIN, 2, false, 0, {}), mk (ZOH, 1, true, 0, {}) }, T ? 12000 : 4000);
	for (int conv : { LIN, ZOH, FAST }) for (int ch : { 1, 2, 3, 4, 6 }) { Prog a = mk (conv, ch, false, 0, {}), b = mk (conv, ch, false, 1, {}), c = mk (conv, ch, true, 0, {}); if (!T) { a.ops.resize (2); b.ops.resize (2); c.ops.resize (2); } else { a.ops.resize (3); b.ops.resize (3); c.ops.resize (3); } interleave ({ a, b, c }); }
}
