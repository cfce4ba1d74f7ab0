/* PROP 16: the built-in distance functions against brute force, for every small data set, every
 * query list, every search list, every k and radius. */
#include "spaces.h"
#include "src/dist_search_imp.h"
#ifdef ANN
/* PROP 25: the same for the searches of examples/ann, through the library's table of functions */
#include "src/dist_search.h"
#define iscc_imp_init_nn_search_object iscc_init_nn_search_object
#define iscc_imp_nearest_neighbor_search iscc_nearest_neighbor_search
#define iscc_imp_close_nn_search_object iscc_close_nn_search_object
#define CHOOSE_FN 3u
#else
#define CHOOSE_FN vf_choose(4)
#endif

const int vf_watchdog_seconds = 40;

/* Leaks of examples/ann that are listed in known_findings.txt (whose entries define KNOWN_...); nothing else leaks. */
static bool known_leak(long blocks, long int_scratch, bool second_of_open, bool second_of_search)
{
	(void) int_scratch; (void) second_of_open; (void) second_of_search;
#ifdef KNOWN_ANN_INT_SCRATCH
	if (int_scratch && blocks == int_scratch) return true;
#endif
#ifdef KNOWN_ANN_SECOND_OF_OPEN
	if (second_of_open && blocks == 1) return true;
#endif
#ifdef KNOWN_ANN_SECOND_OF_SEARCH
	if (second_of_search && blocks == 1) return true;
#endif
	return blocks == 0;
}
#if defined(ANN) && defined(SCC_M_POINTINDEX_TYPE_int)
#define INT_SCRATCH(searches, all, radius) ((all) && !(radius) ? (searches) : 0)
#else
#define INT_SCRATCH(searches, all, radius) 0
#endif

static scc_PointIndex Q[BIGN], SI[BIGN];
static int nq, nsrch, qnull, snull, kk, rs;
static double R;
static const char* what = "";

static int qi(int i) { return qnull ? i : (int) Q[i]; }
static int si(int i) { return snull ? i : (int) SI[i]; }

static void describe(void)
{
	vf_note_space(&S);
	vf_note("%s; queries ", what);
	if (qnull) vf_note("all of the first %d", nq); else for (int i = 0; i < nq && i < 20; ++i) vf_note("%d ", (int) Q[i]);
	vf_note("; searched points ");
	if (snull) vf_note("all of the first %d", nsrch); else for (int i = 0; i < nsrch && i < 20; ++i) vf_note("%d ", (int) SI[i]);
	if (kk) vf_note("; k=%d radius=%g%s", kk, R, rs ? "" : " (none)");
}

static bool near(double a, double b) { return fabs(a - b) <= 1e-13 * (fabs(b) + 1e-300); }

/* lists of given length; distinct if asked for */
static bool choose_list(scc_PointIndex* l, int len, int n, bool distinct)
{
	unsigned used = 0;
	for (int i = 0; i < len; ++i) {
		const unsigned v = vf_choose((unsigned) n);
		if (distinct && (used & (1u << v))) return false;
		used |= 1u << v;
		l[i] = (scc_PointIndex) v;
	}
	return true;
}

static uint64_t list_hash(void)
{
	uint64_t h = (uint64_t) (nq * 64 + nsrch * 4 + qnull * 2 + snull);
	if (!qnull) for (int i = 0; i < nq; ++i) h = vf_mix(h, (uint64_t) Q[i]);
	if (!snull) for (int i = 0; i < nsrch; ++i) h = vf_mix(h, (uint64_t) SI[i]);
	return h;
}

#define G (-12345.0)
static double out[1 << 17];

static void check_matrix(void)
{
	what = "distance matrix";
	const int m = nq * (nq - 1) / 2;
	for (int i = 0; i < m + 2; ++i) out[i] = G;
	if (!iscc_imp_get_dist_matrix(DS, (size_t) nq, qnull ? NULL : Q, out)) vf_fail("failed");
	vf_transition();
	int at = 0;
	for (int i = 0; i < nq; ++i) for (int j = i + 1; j < nq; ++j, ++at)
		if (!near(out[at], vf_dist(&S, qi(i), qi(j)))) vf_fail("entry %d is %.17g, the distance between %d and %d is %.17g", at, out[at], qi(i), qi(j), vf_dist(&S, qi(i), qi(j)));
	if (out[m] != G || out[m + 1] != G) vf_fail("wrote past the %d distances", m);
}

static void check_rows(void)
{
	what = "distance rows";
	const int m = nq * nsrch;
	for (int i = 0; i < m + 2; ++i) out[i] = G;
	if (!iscc_imp_get_dist_rows(DS, (size_t) nq, qnull ? NULL : Q, (size_t) nsrch, snull ? NULL : SI, out)) vf_fail("failed");
	vf_transition();
	for (int i = 0; i < nq; ++i) for (int j = 0; j < nsrch; ++j)
		if (!near(out[i * nsrch + j], vf_dist(&S, qi(i), si(j)))) vf_fail("row %d column %d is %.17g, the distance between %d and %d is %.17g", i, j, out[i * nsrch + j], qi(i), si(j), vf_dist(&S, qi(i), si(j)));
	if (out[m] != G || out[m + 1] != G) vf_fail("wrote past the %d distances", m);
}

static void check_max(void)
{
	what = "most distant points";
	static scc_PointIndex oi[BIGN + 1];
	iscc_MaxDistObject* o = NULL;
	if (!iscc_imp_init_max_dist_object(DS, (size_t) nsrch, snull ? NULL : SI, &o) || !o) vf_fail("init failed");
	for (int rep = 0; rep < 2; ++rep) {
		for (int i = 0; i <= nq; ++i) { out[i] = G; oi[i] = 77; }
		if (!iscc_imp_get_max_dist(o, (size_t) nq, qnull ? NULL : Q, oi, out)) vf_fail("failed");
		vf_transition();
		for (int i = 0; i < nq; ++i) {
			double best = -1.0; bool in = false;
			for (int s = 0; s < nsrch; ++s) {
				const double d = vf_dist(&S, qi(i), si(s));
				if (d > best) best = d;
				if ((int) oi[i] == si(s)) in = true;
			}
			if (!in) vf_fail("the point %d reported for %d is not among those searched", (int) oi[i], qi(i));
			if (!near(out[i], best)) vf_fail("largest distance of %d is reported as %.17g, it is %.17g", qi(i), out[i], best);
			if (!near(vf_dist(&S, qi(i), (int) oi[i]), best)) vf_fail("the point %d reported for %d is not the most distant one", (int) oi[i], qi(i));
		}
		if (out[nq] != G || oi[nq] != 77) vf_fail("wrote past the results");
	}
	if (!iscc_imp_close_max_dist_object(&o) || o != NULL) vf_fail("close failed");
}

static void check_nn(bool oq_null)
{
	what = "nearest neighbors";
	static scc_PointIndex oq[BIGN + 1], on[BIGN * 60 + 1];
	iscc_NNSearchObject* o = NULL;
	if (!iscc_imp_init_nn_search_object(DS, (size_t) nsrch, snull ? NULL : SI, &o) || !o) vf_fail("init failed");
	for (int rep = 0; rep < 2; ++rep) {
		for (int i = 0; i <= nq; ++i) oq[i] = 77;
		for (int i = 0; i <= nq * kk; ++i) on[i] = 77;
		size_t ok = 999;
		if (!iscc_imp_nearest_neighbor_search(o, (size_t) nq, qnull ? NULL : Q, (uint32_t) kk, rs, R, &ok, oq_null ? NULL : oq, on)) vf_fail("failed");
		vf_transition();
		size_t at = 0;
		for (int i = 0; i < nq; ++i) {
			static double d[BIGN];
			static char used[BIGN];
			int m = 0;
			for (int s = 0; s < nsrch; ++s) { const double x = vf_dist(&S, qi(i), si(s)); if (!rs || x <= R) d[m++] = x; }
			if (m < kk) continue;
			for (int a = 0; a < kk; ++a) { int b = a; for (int c = a + 1; c < m; ++c) if (d[c] < d[b]) b = c; const double t = d[a]; d[a] = d[b]; d[b] = t; }
			if (at >= ok) vf_fail("query %d has %d neighbors, but is not reported", qi(i), m);
			if (!oq_null && (int) oq[at] != qi(i)) vf_fail("successful query %zu is reported as %d, %d expected", at, (int) oq[at], qi(i));
			memset(used, 0, (size_t) nsrch);
			for (int a = 0; a < kk; ++a) {
				const int got = (int) on[at * (size_t) kk + (size_t) a];
				bool found = false;
				for (int s = 0; s < nsrch && !found; ++s) if (!used[s] && si(s) == got) { used[s] = 1; found = true; }
				if (!found) vf_fail("neighbor %d of %d is %d, which is not among those searched or reported twice", a, qi(i), got);
				if (!near(vf_dist(&S, qi(i), got), d[a])) vf_fail("neighbor %d of %d is %d at distance %g, expected one at %g", a, qi(i), got, vf_dist(&S, qi(i), got), d[a]);
			}
			++at;
		}
		if (at != ok) vf_fail("%zu successful queries reported, there are %zu", ok, at);
		if (on[(size_t) nq * (size_t) kk] != 77) vf_fail("wrote past the neighbors");
		if (!oq_null) for (size_t i = (size_t) nq; i <= (size_t) nq; ++i) if (oq[i] != 77) vf_fail("wrote past the queries");
	}
	if (!iscc_imp_close_nn_search_object(&o) || o != NULL) vf_fail("close failed");
}

static void explore(const spacecfg* sp, int qmax, int smax, bool distinct)
{
	vf_set_describe(describe);
	kk = 0; rs = 0; R = 0.0; qnull = snull = 1; nq = nsrch = 0;
	if (!choose_space(sp)) return;
	const int p0 = vf_pos();
	if (!vf_shard()) return;
	if (vf_fresh(p0)) setup_space();
	const int n = S.n;
	if (iscc_imp_num_data_points(DS) != (size_t) n || !iscc_imp_check_data_set(DS) || iscc_imp_check_data_set(NULL)) vf_fail("the data set is not recognized");
	const unsigned fn = CHOOSE_FN;
	const long live0 = vf_al.live;
	if (sp->kind == K_LARGE) {
		qnull = (int) vf_choose(2); snull = (int) vf_choose(2);
		nq = qnull ? n : n / 3; nsrch = snull ? n : n / 2;
		if (nq > 200 && fn < 2) nq = 200;
		for (int i = 0; i < nq; ++i) Q[i] = (scc_PointIndex) ((i * 7) % n);
		for (int i = 0; i < nsrch; ++i) SI[i] = (scc_PointIndex) ((i * 3 + 1) % n);
	} else {
		qnull = (int) vf_choose(2);
		nq = vf_range(1, qnull ? n : qmax);
		if (!qnull && !choose_list(Q, nq, n, false)) return;
		if (fn) {
			snull = (int) vf_choose(2);
			nsrch = snull ? vf_range(1, n) : vf_range(1, smax < n || !distinct ? smax : n);
			if (!snull && !choose_list(SI, nsrch, n, distinct)) return;
		}
	}
	bool oqn = false;
	switch (fn) {
	case 0: if (nq < 2) return; check_matrix(); break;
	case 1: if ((size_t) nq * (size_t) nsrch + 2 > sizeof out / sizeof *out) nq = (int) (sizeof out / sizeof *out) / nsrch - 1; check_rows(); break;
	case 2: check_max(); break;
	default: {
		if (sp->kind == K_LARGE) { static const int ks[] = { 1, 2, 5, 8, 60 }; kk = ks[vf_choose(5)]; if (kk > nsrch) kk = nsrch;  }
		else kk = vf_range(1, nsrch);
		const unsigned r = vf_choose((unsigned) nrad + 2);
		if (r == 0) R = 0.0; else if (r == 1) { R = 0.0; oqn = true; } else { rs = 1; R = radlist[r - 2]; }
		check_nn(oqn); }
	}
	if (!known_leak(vf_al.live - live0, INT_SCRATCH(2, snull, rs), false, false)) vf_fail("%ld blocks of memory leak", vf_al.live - live0);
	vf_validated();
	uint64_t h = vf_mix(vf_mix(hash_space(), list_hash()), (uint64_t) fn * 1000u + (uint64_t) kk * 10u + (uint64_t) rs * 2u + oqn);
	h = vf_mix(h, bits(R));
	vf_state(h);
	vf_outcome(vf_mix(fn, (uint64_t) (kk * 100 + nq * 10 + nsrch)));
	if (vf_want_sample()) vf_sample("%s", what);
}

/* ---- more points than 16 bits count; few queries ---- */
#define HN 70000
static double HX[HN * 3];
static scc_PointIndex HS[HN];
static int hdim, hlist, hk, hq;
static double hr;
static int cmpd(const void* a, const void* b) { const double x = *(const double*) a, y = *(const double*) b; return (x > y) - (x < y); }
static double hd(int i, int j) { double s = 0.0; for (int d = 0; d < hdim; ++d) { const double v = HX[i * hdim + d] - HX[j * hdim + d]; s += v * v; } return sqrt(s); }
static void describe_huge(void) { vf_note("%d points of %d dimensions, %s, queries variant %d, search list %d, k=%d, radius %g", HN, hdim, what, hq, hlist, hk, hr); }

static void huge(void)
{
	vf_set_describe(describe_huge);
	what = "building";
	hdim = 1 + 2 * (int) vf_choose(2);
	const unsigned fn = CHOOSE_FN;
	hq = (int) vf_choose(3); hlist = (int) vf_choose(4);
	hk = 0; hr = 0.0;
	if (fn == 3) { static const int ks[] = { 1, 3, 255, 256, 300 }; hk = ks[vf_choose(5)]; hr = vf_choose(2) ? 4000.0 : 0.0; }
	if (fn == 0 && hlist) return;
	if (!vf_shard()) return;
	uint32_t x = 31u + (uint32_t) vf_seed;
	for (int i = 0; i < HN * hdim; ++i) { x = x * 1664525u + 1013904223u; HX[i] = (double) (x >> 12); }
	/* all, every third, from the end, the last few */
	const size_t ns = hlist == 0 ? HN : hlist == 1 ? HN / 3 : hlist == 2 ? 66000 : 400;
	for (size_t i = 0; i < ns; ++i) HS[i] = (scc_PointIndex) (hlist == 1 ? i * 3 : hlist == 2 ? HN - 1 - i : HN - 400 + i);
	const scc_PointIndex* idx = hlist ? HS : NULL;
	static const scc_PointIndex q0[] = { 0, 65535, 65536, 65537, HN - 1 }, q1[] = { 69999, 1, 32768, 1 };
	const scc_PointIndex* q = hq == 0 ? q0 : hq == 1 ? q1 : NULL;
	const int nqq = hq == 0 ? 5 : hq == 1 ? 4 : 3;
	#define HQ(i) (q ? (int) q[i] : (i))
	#define HSI(s) (idx ? (int) idx[s] : (int) (s))
	scc_DataSet* ds = NULL;
	if (scc_init_data_set(HN, (uint32_t) hdim, (size_t) HN * (size_t) hdim, HX, &ds) != SCC_ER_OK) vf_fail("could not make a data set");
#ifdef ANN
	if (!scc_set_ann_dist_search()) vf_fail("the ANN functions were rejected");
#endif
	static double o[5 * HN + 2], d[HN];
	static scc_PointIndex oi[5 * 300 + 1], oq[6];
	const long live0 = vf_al.live;
	if (fn == 0) {
		what = "distance matrix";
		if (!iscc_imp_get_dist_matrix(ds, (size_t) nqq, q, o)) vf_fail("failed");
		for (int i = 0, at = 0; i < nqq; ++i) for (int j = i + 1; j < nqq; ++j, ++at) if (!near(o[at], hd(HQ(i), HQ(j)))) vf_fail("the distance of %d and %d is %g instead of %g", HQ(i), HQ(j), o[at], hd(HQ(i), HQ(j)));
	} else if (fn == 1) {
		what = "distance rows";
		o[(size_t) nqq * ns] = G;
		if (!iscc_imp_get_dist_rows(ds, (size_t) nqq, q, ns, idx, o)) vf_fail("failed");
		for (int i = 0; i < nqq; ++i) for (size_t s = 0; s < ns; ++s) if (!near(o[(size_t) i * ns + s], hd(HQ(i), HSI(s)))) vf_fail("the distance of %d and %d is %g instead of %g", HQ(i), HSI(s), o[(size_t) i * ns + s], hd(HQ(i), HSI(s)));
		if (o[(size_t) nqq * ns] != G) vf_fail("wrote past the distances");
	} else if (fn == 2) {
		what = "most distant points";
		iscc_MaxDistObject* mo = NULL;
		if (!iscc_imp_init_max_dist_object(ds, ns, idx, &mo) || !iscc_imp_get_max_dist(mo, (size_t) nqq, q, oi, o) || !iscc_imp_close_max_dist_object(&mo)) vf_fail("failed");
		for (int i = 0; i < nqq; ++i) {
			double best = 0.0;
			for (size_t s = 0; s < ns; ++s) if (hd(HQ(i), HSI(s)) > best) best = hd(HQ(i), HSI(s));
			if (!near(o[i], best) || !near(hd(HQ(i), (int) oi[i]), best)) vf_fail("the most distant point of %d is reported as %d at %g, the largest distance is %g", HQ(i), (int) oi[i], o[i], best);
		}
	} else {
		what = "nearest neighbors";
		iscc_NNSearchObject* no = NULL;
		size_t ok = 99, at = 0;
		if (!iscc_imp_init_nn_search_object(ds, ns, idx, &no) || !iscc_imp_nearest_neighbor_search(no, (size_t) nqq, q, (uint32_t) hk, hr > 0.0, hr, &ok, oq, oi) || !iscc_imp_close_nn_search_object(&no)) vf_fail("failed");
		for (int i = 0; i < nqq; ++i) {
			size_t m = 0;
			for (size_t s = 0; s < ns; ++s) { const double t = hd(HQ(i), HSI(s)); if (hr == 0.0 || t <= hr) d[m++] = t; }
			if (m < (size_t) hk) continue;
			qsort(d, m, sizeof(double), cmpd);
			if (at >= ok || (int) oq[at] != HQ(i)) vf_fail("the query %d has %zu neighbors but is not reported", HQ(i), m);
			for (int a = 0; a < hk; ++a) {
				const int got = (int) oi[at * (size_t) hk + (size_t) a];
				if (got < 0 || got >= HN || !near(hd(HQ(i), got), d[a])) vf_fail("neighbor %d of %d is %d, the distance should be %g", a, HQ(i), got, d[a]);
				if (hlist == 1 ? got % 3 || got / 3 >= (int) ns : hlist == 2 ? got < HN - 66000 : hlist == 3 ? got < HN - 400 : 0) vf_fail("neighbor %d of %d is %d, which is not among those searched", a, HQ(i), got);
				for (int b = 0; b < a; ++b) if (got == (int) oi[at * (size_t) hk + (size_t) b]) vf_fail("neighbor %d is reported twice", got);
			}
			++at;
		}
		if (at != ok) vf_fail("%zu queries reported as successful, there are %zu", ok, at);
	}
	vf_transition();
	if (!known_leak(vf_al.live - live0, INT_SCRATCH(1, !idx, hr > 0.0), false, false)) vf_fail("%ld blocks of memory leak", vf_al.live - live0);
	scc_free_data_set(&ds);
	vf_validated();
	const uint64_t h = vf_mix((uint64_t) hdim * 1000u + fn * 100u + (uint64_t) hq * 10u + (uint64_t) hlist, (uint64_t) hk * 2u + (hr > 0.0));
	vf_state(h); vf_outcome(h);
	if (vf_want_sample()) vf_sample("%s of %d points", what, HN);
}

#ifdef ANN
/* an allocation that fails is reported; the wrapper's own (the first two of each call) leave nothing behind */
static void faults(void)
{
	static const spacecfg c = { K_GRID1, 1, 5, 3, 1 };
	vf_set_describe(describe);
	kk = 0; rs = 0; R = 0.0; qnull = 1; snull = 1; nq = nsrch = 0;
	if (!choose_space(&c)) return;
	const int p0 = vf_pos();
	if (!vf_shard()) return;
	if (vf_fresh(p0)) setup_space();
	static scc_PointIndex oq[BIGN], on[BIGN];
	snull = (int) vf_choose(2); nq = nsrch = S.n; what = "nearest neighbors with a failed allocation";
	for (int i = 0; i < nsrch; ++i) SI[i] = (scc_PointIndex) (nsrch - 1 - i);
	kk = vf_range(1, S.n);
	rs = (int) vf_choose(2); R = rs ? 1.0 : 0.0;
	const bool in_init = vf_choose(2) == 0;
	const long f = vf_range(1, 2), live0 = vf_al.live;
#ifdef SCC_M_POINTINDEX_TYPE_int
	if (!in_init && f == 2 && snull) return; /* made by the tree library, which does not expect it to fail */
#endif
	iscc_NNSearchObject* o = NULL;
	size_t ok = 0;
	if (in_init) vf_alloc_arm(f, 0, 0);
	bool good = iscc_init_nn_search_object(DS, (size_t) nsrch, snull ? NULL : SI, &o);
	if (in_init) {
		vf_alloc_disarm();
		vf_transition();
		if (good) vf_fail("allocation %ld failed, but opening a search succeeded", f);
		if (!known_leak(vf_al.live - live0, 0, f == 2, false)) vf_fail("%ld blocks of memory leak when allocation %ld fails", vf_al.live - live0, f);
	} else {
		if (!good) vf_fail("opening a search failed");
		long live1 = vf_al.live;
		vf_alloc_arm(f, 0, 0);
		good = iscc_nearest_neighbor_search(o, (size_t) nq, NULL, (uint32_t) kk, rs, R, &ok, oq, on);
		vf_alloc_disarm();
		vf_transition();
		if (good) vf_fail("allocation %ld failed, but the search succeeded", f);
		if (!known_leak(vf_al.live - live1, 0, false, f == 2)) vf_fail("%ld blocks of memory leak when allocation %ld of a search fails", vf_al.live - live1, f);
		live1 = live0 + vf_al.live - live1;
		if (!iscc_close_nn_search_object(&o) || o) vf_fail("close failed");
		if (vf_al.live != live1) vf_fail("%ld blocks of memory leak", vf_al.live - live1);
	}
	vf_validated();
	vf_state(vf_mix(hash_space(), (uint64_t) (kk * 16 + (f - 1) * 8 + rs * 4 + snull * 2 + in_init)));
	vf_outcome((uint64_t) (kk * 2 + in_init));
}
#define IF_ANN(x) x
#define COMMA ,
#define DIM_TIER 1
#else
#define IF_ANN(x)
#define DIM_TIER 0
#endif

#define SC(name, q, s, d, ...) static void name(void) { static const spacecfg c = { __VA_ARGS__ }; explore(&c, q, s, d); }
SC(s1, 2, 4, true,  K_GRID1, 1, 4, 3, 1)
SC(s2, 2, 3, false, K_GRID1, 2, 3, 4, 1)
SC(s3, 2, 3, true,  K_GRID2, 1, 3, 3, 1)
SC(s4, 0, 0, true,  K_LARGE, 0, 0, 11, 1)
SC(s5, 3, 2, true,  K_GRID1, 3, 3, 3, 1)
SC(s6, 1, 5, true,  K_GRID1, 5, 5, 2, 1)
SC(s7, 1, 2, true,  K_DIM, 3, 4, 3, 1)
SC(s8, 1, 2, true,  K_DIM, 5, 7, 2, 1)
SC(t4, 2, 2, true,  K_DIM, 3, 5, 3, 1)
SC(t5, 1, 2, true,  K_DIM, 8, 9, 2, 1)
SC(t1, 2, 5, true,  K_GRID1, 5, 5, 3, 1)
SC(t2, 2, 4, true,  K_GRID2, 4, 4, 3, 1)
SC(t3, 3, 4, false, K_GRID1, 4, 4, 3, 1)
SC(z1, 2, 3, true, K_GRID1, 2, 4, 3, 1, 1)
SC(z2, 2, 3, true, K_GRID2, 2, 3, 3, 1, 1)
const vf_scenario vf_scenarios[] = { { "line", s1, 0 }, { "line-repeated", s2, 0 }, { "plane", s3, 0 }, { "large", s4, 0 }, { "three-queries", s5, 0 }, { "five-points", s6, 0 }, IF_ANN({ "faults" COMMA faults COMMA 0 } COMMA) { "dimensions", s7, DIM_TIER }, { "more-dimensions", s8, 0 }, { "huge", huge, 0 }, { "five-points-all", t1, 1 }, { "plane-four-points", t2, 1 }, { "four-points-repeated", t3, 1 }, { "five-dimensions", t4, 1 }, { "nine-dimensions", t5, 1 }, { "scaled-line", z1, 0 }, { "scaled-plane", z2, 0 }, { 0 } };
