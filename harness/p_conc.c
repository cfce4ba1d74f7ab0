/* Interleavings of concurrent calls on different objects, and calls made from inside the
 * distance functions. The library is compiled with the compiler's thread instrumentation, but
 * the instrumentation calls below are a scheduler's: every access to memory that is not the
 * calling thread's own is a point where the other thread may be given the turn. */
#define VF_NO_REDIRECT
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include "spaces.h"

const int vf_watchdog_seconds = 40;

/* ------------------------------------------------------------------ threads that take turns */
#define MAXT 3
#define ARENA (1u << 20)
typedef struct { sem_t go; pthread_t th; char* arena; const char* stack_lo; const char* stack_hi; size_t used; bool done; int op; uint64_t res; } worker;
static worker W[MAXT];
static sem_t back;
static __thread int me = -1;
static int nthreads, budget, active_n, started;
static bool on, counting;
static long visible, switches, nwrites;
static uint64_t run_op(int op, int who);
static uint64_t sched_hash;
extern char __data_start, _end;

static void* body(void* a)
{
	const int i = (int) (intptr_t) a;
	me = i;
	pthread_attr_t at;
	void* lo; size_t sz;
	if (pthread_getattr_np(pthread_self(), &at) || pthread_attr_getstack(&at, &lo, &sz)) vf_error("no stack");
	W[i].stack_lo = lo; W[i].stack_hi = (char*) lo + sz;
	pthread_attr_destroy(&at);
	for (;;) {
		sem_wait(&W[i].go);
		W[i].res = run_op(W[i].op, i);
		W[i].done = true;
		sem_post(&back);
	}
	return NULL;
}

static void give(int to)
{
	const int self = me;
	sem_post(&W[to].go);
	sem_wait(&W[self].go);
}

/* the calling thread is about to touch memory that others may touch as well */
static void point(const void* p, bool write)
{
	(void) p;
	++visible;
	nwrites += write;
	vf_transition();
	if (counting || budget == 0) return;
	int other[MAXT], n = 0;
	for (int i = 0; i < nthreads; ++i) if (i != me && !W[i].done) other[n++] = i;
	if (n == 0) return;
	const unsigned c = vf_choose((unsigned) n + 1);
	if (c == 0) return;
	--budget;
	++switches;
	sched_hash = vf_mix(sched_hash, (uint64_t) visible * 8u + (uint64_t) other[c - 1]);
	give(other[c - 1]);
}

/* memory other than the thread's own that some call writes, found by running every call alone */
#define NCONF 4096
static uintptr_t conf[NCONF];
static int nconf;
static bool reduced, recording;
static bool in_conf(uintptr_t g) { for (int i = 0; i < nconf; ++i) if (conf[i] == g) return true; return false; }

static inline void touch(const void* p, size_t n, bool write)
{
	if (!on || me < 0) return;
	const char* q = p;
	worker* const w = &W[me];
	if (q >= w->arena && q < w->arena + ARENA) return;
	if (q >= w->stack_lo && q < w->stack_hi) return;
	if (recording) {
		if (write) for (uintptr_t g = (uintptr_t) p >> 3; g <= ((uintptr_t) p + n - 1) >> 3; ++g) if (!in_conf(g) && nconf < NCONF) conf[nconf++] = g;
		return;
	}
	if (!write) {
		bool dep = false;
		for (uintptr_t g = (uintptr_t) p >> 3; !dep && nconf && g <= ((uintptr_t) p + n - 1) >> 3; ++g) dep = in_conf(g);
		/* reading what nobody writes commutes with everything */
		if (!dep && (reduced || !(q >= &__data_start && q < &_end))) return;
	}
	point(p, write);
}

/* a thread that is done gives the turn to the next one chosen; called by the controlling thread */
static void run_threads(int n, const int* ops)
{
	nthreads = n;
	for (int i = 0; i < n; ++i) { W[i].op = ops[i]; W[i].done = false; W[i].used = 0; }
	on = true;
	for (int left = n; left > 0; --left) {
		int ready[MAXT], m = 0;
		for (int i = 0; i < n; ++i) if (!W[i].done) ready[m++] = i;
		const int c = ready[m > 1 ? vf_choose((unsigned) m) : 0];
		sched_hash = vf_mix(sched_hash, (uint64_t) c);
		sem_post(&W[c].go);
		sem_wait(&back);
	}
	on = false;
}

static void* arena_malloc(size_t n)
{
	if (me < 0 || !on) return NULL;
	worker* w = &W[me];
	n = (n + 31) & ~(size_t) 15;
	if (w->used + n > ARENA) vf_error("a thread's memory is used up");
	size_t* p = (size_t*) (void*) (w->arena + w->used);
	p[0] = n;
	w->used += n;
	return p + 2;
}

static bool arena_has(const void* p)
{
	for (int i = 0; i < MAXT; ++i) if ((const char*) p >= W[i].arena && (const char*) p < W[i].arena + ARENA) return true;
	return false;
}
extern void* (*vf_malloc_hook)(size_t);
extern bool (*vf_owned_hook)(const void*);

static void start(void)
{
	if (started) return;
	started = 1;
	sem_init(&back, 0, 0);
	for (int i = 0; i < MAXT; ++i) {
		W[i].arena = malloc(ARENA);
		sem_init(&W[i].go, 0, 0);
		if (!W[i].arena || pthread_create(&W[i].th, NULL, body, (void*) (intptr_t) i)) vf_error("no threads");
	}
	vf_malloc_hook = arena_malloc;
	vf_owned_hook = arena_has;
}

/* ---- what the instrumented library calls ---- */
#define RW(n) void __tsan_read##n(void* p); void __tsan_read##n(void* p) { touch(p, n, false); } void __tsan_write##n(void* p); void __tsan_write##n(void* p) { touch(p, n, true); } \
	void __tsan_unaligned_read##n(void* p); void __tsan_unaligned_read##n(void* p) { touch(p, n, false); } void __tsan_unaligned_write##n(void* p); void __tsan_unaligned_write##n(void* p) { touch(p, n, true); } \
	void __tsan_volatile_read##n(void* p); void __tsan_volatile_read##n(void* p) { touch(p, n, false); } void __tsan_volatile_write##n(void* p); void __tsan_volatile_write##n(void* p) { touch(p, n, true); } \
	void __tsan_read_write##n(void* p); void __tsan_read_write##n(void* p) { touch(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n); void __tsan_read_range(void* p, size_t n) { touch(p, n, false); }
void __tsan_write_range(void* p, size_t n); void __tsan_write_range(void* p, size_t n) { touch(p, n, true); }
void __tsan_func_entry(void* p); void __tsan_func_entry(void* p) { (void) p; }
void __tsan_func_exit(void); void __tsan_func_exit(void) { }
void __tsan_init(void); void __tsan_init(void) { }
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* p, int m); T __tsan_atomic##bits##_load(const volatile T* p, int m) { touch((const void*) p, 1, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T* p, T v, int m); void __tsan_atomic##bits##_store(volatile T* p, T v, int m) { touch((const void*) p, 1, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int m); T __tsan_atomic##bits##_exchange(volatile T* p, T v, int m) { touch((const void*) p, 1, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int m); T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int m) { touch((const void*) p, 1, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int m); T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int m) { touch((const void*) p, 1, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int m, int f); int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int m, int f) { touch((const void*) p, 1, true); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int m, int f); int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int m, int f) { touch((const void*) p, 1, true); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m); void __tsan_atomic_thread_fence(int m) { (void) m; }
void* vf_memcpy(void* d, const void* s, size_t n); void* vf_memcpy(void* d, const void* s, size_t n) { touch(s, n, false); touch(d, n, true); return memcpy(d, s, n); }
void* vf_memmove(void* d, const void* s, size_t n); void* vf_memmove(void* d, const void* s, size_t n) { touch(s, n, false); touch(d, n, true); return memmove(d, s, n); }
void* vf_memset(void* d, int c, size_t n); void* vf_memset(void* d, int c, size_t n) { touch(d, n, true); return memset(d, c, n); }

/* ------------------------------------------------------------------ operations */
enum { NPT = 7 };
static const double DATA0[MAXT][NPT * 2] = {
	{ 0, 0, 1, 0, 3, 0, 3, 1, 8, 8, 9, 7, 4, 4 },
	{ 5, 5, 2, 1, 2, 2, 7, 0, 6, 1, 0, 9, 1, 8 },
	{ 1, 1, 1, 1, 4, 0, 4, 2, 6, 6, 9, 9, 0, 3 } };
static double (*DATA)[NPT * 2];
static scc_DataSet* SETS[MAXT];
static vf_space SP[MAXT];
static vf_backend BE[MAXT];
static scc_Clustering* SHARED;
static bool backend, same_data;
static const char* const opname[] = { "lexical", "batches", "inwards order", "inwards updating", "exclusion order", "exclusion updating", "types", "primary points", "refinement", "refinement of a clustering", "statistics and check", "no solution", "invalid options", "labels and copies", "own data set" };
#define NOPS 15

static void* data_of(int who)
{
	const int k = same_data ? 0 : who;
	return backend ? (void*) &BE[k] : (void*) SETS[k];
}

static uint64_t labels_hash(scc_Clustering* c, uint64_t h)
{
	scc_Clabel l[NPT];
	uint64_t n = 0, K = 0;
	h = vf_mix(h, (uint64_t) scc_get_clustering_info(c, &n, &K));
	h = vf_mix(vf_mix(h, n), K);
	if (K > 0) {
		h = vf_mix(h, (uint64_t) scc_get_cluster_labels(c, NPT, l));
		for (int i = 0; i < NPT; ++i) h = vf_mix(h, (uint64_t) (vf_lab(l[i]) + 2));
	}
	return h;
}

static uint64_t stats_hash(void* ds, scc_Clustering* c, uint64_t h)
{
	scc_ClusteringStats st;
	memset(&st, 0, sizeof st);
	h = vf_mix(h, (uint64_t) scc_get_clustering_stats(ds, c, &st));
	const uint64_t u[6] = { st.num_data_points, st.num_assigned, st.num_clusters, st.num_populated_clusters, st.min_cluster_size, st.max_cluster_size };
	const double f[8] = { st.avg_cluster_size, st.sum_dists, st.min_dist, st.max_dist, st.avg_min_dist, st.avg_max_dist, st.avg_dist_weighted, st.avg_dist_unweighted };
	for (int i = 0; i < 6; ++i) h = vf_mix(h, u[i]);
	for (int i = 0; i < 8; ++i) { uint64_t b; memcpy(&b, &f[i], 8); h = vf_mix(h, b); }
	return h;
}

static uint64_t run_op(int op, int who)
{
	void* ds = data_of(who);
	uint64_t h = 1;
	scc_Clustering* c = NULL;
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 2;
	const scc_PointIndex prim[3] = { 1, 3, 4 };
	const uint32_t tc[2] = { 1, 1 };
	const scc_TypeLabel tl[NPT] = { 0, 1, 0, 1, 0, 1, 0 };
	switch (op) {
	default:
		o.seed_method = (scc_SeedMethod) op;
		if (op != (int) SCC_SM_BATCHES) { o.primary_unassigned_method = (op % 2) ? SCC_UM_CLOSEST_SEED : SCC_UM_CLOSEST_ASSIGNED; if (op == 3) o.primary_radius = SCC_RM_USE_ESTIMATED; }
		else o.primary_unassigned_method = SCC_UM_ANY_NEIGHBOR, o.primary_radius = SCC_RM_USE_SEED_RADIUS;
		break;
	case 6: o.seed_method = SCC_SM_EXCLUSION_UPDATING; o.num_types = 2; o.type_constraints = tc; o.type_labels = tl; o.len_type_labels = NPT; break;
	case 7: o.primary_data_points = prim; o.len_primary_data_points = 3; o.secondary_unassigned_method = SCC_UM_CLOSEST_ASSIGNED; o.secondary_radius = SCC_RM_USE_SUPPLIED; o.secondary_supplied_radius = 4; o.primary_unassigned_method = SCC_UM_ANY_NEIGHBOR; break;
	case 8: case 9: {
		const scc_Clabel l[NPT] = { 0, 1, 0, SCC_CLABEL_NA, 0, 1, 0 };
		h = vf_mix(h, (uint64_t) (op == 8 ? scc_init_empty_clustering(NPT, NULL, &c) : scc_init_existing_clustering(NPT, 2, (scc_Clabel*) l, true, &c)));
		h = vf_mix(h, (uint64_t) scc_hierarchical_clustering(ds, 2, op == 9, c));
		h = labels_hash(c, h);
		scc_free_clustering(&c);
		return h; }
	case 10: {
		bool ok = false;
		h = stats_hash(ds, SHARED, h);
		h = vf_mix(h, (uint64_t) scc_check_clustering(SHARED, &o, &ok));
		return vf_mix(h, ok); }
	case 11: o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 1e-3; break;
	case 12: o.size_constraint = 0; break;
	case 13: {
		scc_Clustering* d = NULL;
		scc_Clabel l[NPT] = { 1, 1, 0, 0, 2, 2, 2 };
		h = vf_mix(h, (uint64_t) scc_init_existing_clustering(NPT, 3, l, false, &c));
		h = vf_mix(h, (uint64_t) scc_copy_clustering(c, &d));
		h = labels_hash(d, h);
		h = vf_mix(h, scc_is_initialized_clustering(d));
		scc_free_clustering(&d); scc_free_clustering(&c);
		return h; }
	case 14: {
		scc_DataSet* d = NULL;
		h = vf_mix(h, (uint64_t) scc_init_data_set(NPT, 2, NPT * 2, DATA[who], &d));
		if (!backend) ds = d;
		h = vf_mix(h, (uint64_t) scc_init_empty_clustering(NPT, NULL, &c));
		h = vf_mix(h, (uint64_t) scc_sc_clustering(ds, &o, c));
		h = labels_hash(c, h);
		scc_free_clustering(&c);
		scc_free_data_set(&d);
		return h; }
	}
	h = vf_mix(h, (uint64_t) scc_init_empty_clustering(NPT, NULL, &c));
	h = vf_mix(h, (uint64_t) scc_sc_clustering(ds, &o, c));
	h = labels_hash(c, h);
	if (op < 8) h = stats_hash(ds, c, h);
	scc_free_clustering(&c);
	return h;
}

static int ops[MAXT], nops;
static int preempt;
static uint64_t alone[MAXT];
static long nested_at;

static void describe(void)
{
	vf_note("%s%s; ", backend ? "caller's distance functions" : "built-in distances", same_data ? ", one data set" : "");
	for (int i = 0; i < nops; ++i) vf_note("thread %d: %s; ", i, opname[ops[i]]);
	if (nested_at) vf_note("second call made inside distance function call %ld", nested_at);
	else vf_note("%d switches of threads, %ld accesses to shared memory", (int) switches, visible);
}

static void setup(void)
{
	start();
	on = false;
	if (!DATA) { DATA = malloc(sizeof DATA0); memcpy(DATA, DATA0, sizeof DATA0); }
	vf_backend_uninstall();
	for (int i = 0; i < MAXT; ++i) {
		SP[i] = (vf_space) { .n = NPT, .coords = true, .dim = 2, .xy = DATA[i] };
		vf_backend_init(&BE[i], &SP[i], 0);
		if (!SETS[i] && scc_init_data_set(NPT, 2, NPT * 2, DATA[i], &SETS[i]) != SCC_ER_OK) vf_error("no data set");
	}
	static scc_Clabel l[NPT] = { 0, 0, 1, 1, 2, 2, SCC_CLABEL_NA };
	if (!SHARED && scc_init_existing_clustering(NPT, 3, l, true, &SHARED) != SCC_ER_OK) vf_error("no clustering");
	if (backend) vf_backend_install();
}

static uint64_t solo(int op, int who, int n)
{
	W[who].op = op; W[who].done = false; W[who].used = 0; nthreads = n; on = true;
	sem_post(&W[who].go); sem_wait(&back);
	on = false;
	return W[who].res;
}

static void find_conflicts(void)
{
	static bool done;
	if (done) return;
	done = true;
	recording = true;
	for (int b = 0; b < 2; ++b) for (int s = 0; s < 2; ++s) for (int op = 0; op < NOPS; ++op) for (int who = 0; who < MAXT; ++who) {
		backend = b; same_data = s;
		setup();
		solo(op, who, MAXT);
	}
	recording = false;
}

static void threads(int n, int bound, bool red)
{
	find_conflicts();
	reduced = red;
	vf_set_describe(describe);
	nops = n;
	nested_at = 0;
	backend = vf_choose(2);
	same_data = vf_choose(2);
	for (int i = 0; i < n; ++i) ops[i] = (int) vf_choose(NOPS);
	for (int i = 1; i < n; ++i) if (same_data && ops[i] < ops[i - 1]) return; /* the same but for the order of the threads */
	preempt = bound;
	const int p0 = vf_pos();
	if (!vf_shard()) return;
	setup();
	if (vf_fresh(p0)) {
		/* what each call gives alone */
		counting = true;
		for (int i = 0; i < n; ++i) alone[i] = solo(ops[i], i, n);
		counting = false;
	}
	visible = switches = nwrites = 0;
	budget = preempt;
	sched_hash = 1;
	run_threads(n, ops);
	uint64_t h = 5;
	for (int i = 0; i < n; ++i) {
		if (W[i].res != alone[i]) vf_fail("the call of thread %d (%s) gives another result than alone", i, opname[ops[i]]);
		h = vf_mix(h, W[i].res);
	}
	vf_validated();
	vf_outcome(h);
	vf_state(vf_mix(vf_mix(h, sched_hash), (uint64_t) (backend * 2 + same_data)));
	if (vf_want_sample()) vf_sample("interleaving explored, %ld of the accesses were writes", nwrites);
}

static void two2(void) { threads(2, 2, false); }
static void two3(void) { threads(2, 3, false); }
static void two4r(void) { threads(2, 4, true); }
static void two4(void) { threads(2, 4, false); }
static void three2(void) { threads(3, 2, false); }
static void three4r(void) { threads(3, 4, true); }
static void three3r(void) { threads(3, 3, true); }

/* ---- a call made from inside a distance function of another call ---- */
static int nest_op;
static long left;
static uint64_t nested_res;
static bool nested;
static void nest(void)
{
	if (nested || --left != 0) return;
	nested = true;
	const bool b = backend, s = same_data;
	same_data = false;
	nested_res = run_op(nest_op, 1);
	same_data = s; backend = b;
}

static void reenter(void)
{
	vf_set_describe(describe);
	nops = 2;
	backend = true; same_data = false;
	switches = visible = 0;
	ops[0] = (int) vf_choose(NOPS);
	ops[1] = nest_op = (int) vf_choose(NOPS);
	if (!vf_shard()) return;
	setup();
	static long calls;
	nested_at = 0;
	alone[0] = run_op(ops[0], 0);
	calls = BE[0].calls;
	alone[1] = run_op(ops[1], 1);
	if (calls == 0) return;
	nested_at = 1 + (long) vf_choose((unsigned) calls);
	setup();
	left = nested_at;
	nested = false;
	BE[0].reenter = nest;
	const uint64_t r = run_op(ops[0], 0);
	BE[0].reenter = NULL;
	vf_transition();
	if (!nested) vf_fail("the number of calls to the distance functions depends on what happened before");
	if (r != alone[0]) vf_fail("%s gives another result when a distance function uses the library", opname[ops[0]]);
	if (nested_res != alone[1]) vf_fail("%s gives another result when called from a distance function", opname[ops[1]]);
	vf_validated();
	vf_outcome(vf_mix(r, nested_res));
	vf_state(vf_mix(vf_mix(r, nested_res), (uint64_t) nested_at));
	if (vf_want_sample()) vf_sample("nested call");
}

const vf_scenario vf_scenarios[] = { { "nested", reenter, 0 }, { "two-threads-four-preemptions-reduced", two4r, 0 }, { "three-threads-three-preemptions-reduced", three3r, 0 }, { "two-threads-two-preemptions", two2, 0 }, { "two-threads-three-preemptions", two3, 0 }, { "three-threads-four-preemptions-reduced", three4r, 1 }, { "two-threads-four-preemptions", two4, 1 }, { "three-threads-two-preemptions", three2, 1 }, { 0 } };
