/* Every labeling of small spaces. PROP 13: scc_check_clustering against a direct recount.
 * PROP 14: scc_get_clustering_stats against the definitions. */
#include <float.h>
#include "spaces.h"

const int vf_watchdog_seconds = 40;

static scc_Clabel LAB[BIGN];
static int L[BIGN]; /* -1 not assigned, -2 out of range */
static int K, deep;
static scc_ClusterOptions O;
static uint32_t TC[4];
static scc_TypeLabel TL[BIGN];
static scc_PointIndex PRIM[BIGN];

static const int LARGE_N[] = { 40, 150, 400 };

/* labels 0..K-1, unassigned, and optionally one that is not a cluster */
static void choose_labels(int n, bool bad)
{
	for (int i = 0; i < n; ++i) {
		const int c = (int) vf_choose((unsigned) (K + 1 + bad));
		L[i] = c < K ? c : c == K ? -1 : -2;
		LAB[i] = c < K ? (scc_Clabel) c : c == K ? SCC_CLABEL_NA : (scc_Clabel) K;
	}
}

static void bad_value(int n)
{
	/* other values than K that are no clusters either */
	bool any = false;
	for (int i = 0; i < n; ++i) any = any || L[i] == -2;
	if (!any) return;
	scc_Clabel v = (scc_Clabel) K;
	switch (vf_choose(3)) {
	case 0: break;
	case 1: v = ((scc_Clabel) -1 < 0) ? (scc_Clabel) 0x7fffffff : (scc_Clabel) -1; if (v == SCC_CLABEL_NA) --v; break;
	default: v = ((scc_Clabel) -1 < 0) ? (scc_Clabel) -2 : (scc_Clabel) (K + 1); break;
	}
	for (int i = 0; i < n; ++i) if (L[i] == -2) LAB[i] = v;
}

static uint64_t lab_hash(int n)
{
	uint64_t h = vf_mix((uint64_t) n, (uint64_t) K);
	for (int i = 0; i < n; ++i) h = vf_mix(h, (uint64_t) (intmax_t) LAB[i]);
	return h;
}

static scc_Clustering* make(int n)
{
	scc_Clustering* c = NULL;
	const scc_ErrorCode e = scc_init_existing_clustering((uint64_t) n, (uint64_t) K, LAB, deep, &c);
	if (e != SCC_ER_OK) vf_fail("could not make a clustering from labels: %s", vf_ecname(e));
	vf_transition();
	return c;
}

#if PROP == 13
static void describe(void)
{
	vf_note("%d clusters, labels (-1 unassigned, -2 not a cluster): ", K);
	vf_note_labels("labels", L, S.n);
	vf_note_options(&O, S.n);
}

static bool expected(int n)
{
	static uint32_t cnt[256 * 4], tot[256];
	const int T = O.num_types >= 2 ? (int) O.num_types : 0;
	memset(cnt, 0, sizeof(uint32_t) * (size_t) (K * 4)); memset(tot, 0, sizeof(uint32_t) * (size_t) K);
	for (int i = 0; i < n; ++i) {
		if (L[i] == -2) return false;
		if (L[i] >= 0) { ++tot[L[i]]; if (T) ++cnt[L[i] * 4 + (int) TL[i]]; }
	}
	for (int k = 0; k < K; ++k) {
		if (tot[k] < O.size_constraint) return false;
		for (int t = 0; t < T; ++t) if (cnt[k * 4 + t] < TC[t]) return false;
	}
	for (size_t i = 0; i < O.len_primary_data_points; ++i) if (L[(int) PRIM[i]] == -1) return false;
	return true;
}

static void body(int n, int kmax, int types, bool prim, bool bad)
{
	S.n = n;
	vf_set_describe(describe);
	O = scc_get_default_options();
	O.size_constraint = (uint32_t) vf_range(2, n < 5 ? n : 5);
	if (!vf_shard()) return;
	if (types) {
		const int T = vf_range(2, types);
		O.num_types = (uint32_t) T; O.type_constraints = TC; O.type_labels = TL; O.len_type_labels = (size_t) n;
		for (int t = 0; t < T; ++t) TC[t] = vf_choose(3);
		for (int i = 0; i < n; ++i) TL[i] = (scc_TypeLabel) vf_choose((unsigned) T);
	}
	if (prim) {
		const unsigned set = 1 + vf_choose((1u << n) - 1);
		size_t k = 0;
		for (int i = 0; i < n; ++i) if ((set >> i) & 1) PRIM[k++] = (scc_PointIndex) i;
		O.primary_data_points = PRIM; O.len_primary_data_points = k;
	}
	K = vf_range(1, kmax);
	choose_labels(n, bad);
	bad_value(n);
	/* settings that do not matter: only sizes, types and primary points are checked */
	const unsigned w = types || prim ? 0 : vf_choose(4);
	if (w == 1) { O.seed_radius = SCC_RM_USE_SUPPLIED; O.seed_supplied_radius = 0.001; }
	if (w == 2) { O.seed_method = SCC_SM_BATCHES; }
	if (w == 3) { O.seed_method = SCC_SM_EXCLUSION_UPDATING; O.primary_unassigned_method = SCC_UM_IGNORE; O.secondary_unassigned_method = SCC_UM_CLOSEST_SEED; }
	deep = bad ? 0 : (int) (w & 1);
	scc_Clustering* c = make(n);
	static scc_Clabel keep[BIGN];
	memcpy(keep, LAB, sizeof(scc_Clabel) * (size_t) n);
	bool ok = !expected(n);
	const scc_ErrorCode e = scc_check_clustering(c, &O, &ok);
	vf_transition();
	if (e != SCC_ER_OK) vf_fail("checking a clustering gives %s", vf_ecname(e));
	if (ok != expected(n)) vf_fail("the clustering is %s, but reported as %s", expected(n) ? "correct" : "incorrect", ok ? "correct" : "incorrect");
	if (memcmp(keep, LAB, sizeof(scc_Clabel) * (size_t) n)) vf_fail("checking changed the labels");
	scc_free_clustering(&c);
	vf_validated();
	uint64_t h = vf_mix(lab_hash(n), O.size_constraint * 100u + w);
	for (uint32_t t = 0; t < O.num_types; ++t) h = vf_mix(h, TC[t]);
	if (types) for (int i = 0; i < n; ++i) h = vf_mix(h, (uint64_t) TL[i]);
	for (size_t i = 0; i < O.len_primary_data_points; ++i) h = vf_mix(h, (uint64_t) PRIM[i]);
	vf_state(vf_mix(h, ok));
	vf_outcome((uint64_t) ok);
	vf_digest(vf_mix(h, ok));
	if (vf_want_sample()) vf_sample("reported as %s", ok ? "correct" : "incorrect");
}

static void s1(void) { body(vf_range(2, 6), 3, 0, false, false); }
static void s2(void) { body(vf_range(2, 5), 2, 0, false, true); }
static void s3(void) { body(vf_range(2, 5), 2, 2, false, false); }
static void s4(void) { body(vf_range(2, 5), 2, 0, true, false); }
static void s5(void) { body(vf_range(2, 4), 2, 3, false, false); }
static void s6(void) { body(vf_range(3, 4), 2, 2, true, true); }

/* larger clusterings: one violation planted at every position */
static void s7(void)
{
	vf_set_describe(describe);
	const int n = LARGE_N[vf_choose(3)];
	S.n = n;
	O = scc_get_default_options();
	const int sz = vf_range(2, 4), types = (int) vf_choose(2), prim = (int) vf_choose(2);
	if (!vf_shard()) return;
	O.size_constraint = (uint32_t) sz;
	K = n / sz;
	for (int i = 0; i < n; ++i) { L[i] = i % K; LAB[i] = (scc_Clabel) L[i]; }
	if (types) {
		O.num_types = 2; O.type_constraints = TC; O.type_labels = TL; O.len_type_labels = (size_t) n;
		TC[0] = 1; TC[1] = 1;
		for (int i = 0; i < n; ++i) TL[i] = (scc_TypeLabel) ((i / K) & 1);
	}
	if (prim) {
		size_t k = 0;
		for (int i = 0; i < n; i += 3) PRIM[k++] = (scc_PointIndex) i;
		O.primary_data_points = PRIM; O.len_primary_data_points = k;
	}
	const int what = (int) vf_choose(5), at = (int) vf_choose((unsigned) n);
	if (what == 1) { L[at] = -1; LAB[at] = SCC_CLABEL_NA; }
	else if (what == 2) { L[at] = -2; LAB[at] = (scc_Clabel) K; }
	else if (what == 3) { L[at] = (L[at] + 1) % K; LAB[at] = (scc_Clabel) L[at]; }
	else if (what == 4 && types) TL[at] = (scc_TypeLabel) !TL[at];
	deep = 1;
	scc_Clustering* c = make(n);
	bool ok = !expected(n);
	const scc_ErrorCode e = scc_check_clustering(c, &O, &ok);
	vf_transition();
	if (e != SCC_ER_OK) vf_fail("checking a clustering gives %s", vf_ecname(e));
	if (ok != expected(n)) vf_fail("the clustering is %s, but reported as %s", expected(n) ? "correct" : "incorrect", ok ? "correct" : "incorrect");
	scc_free_clustering(&c);
	vf_validated();
	uint64_t h = vf_mix(lab_hash(n), (uint64_t) (sz * 100 + types * 10 + prim));
	for (int i = 0; types && i < n; ++i) h = vf_mix(h, (uint64_t) TL[i]);
	vf_state(h); vf_outcome((uint64_t) ok); vf_digest(vf_mix(h, ok));
}

static void t1(void) { body(vf_range(5, 7), 3, 0, false, true); }
static void t2(void) { body(6, 2, 2, false, false); }
static void t3(void) { body(5, 2, 2, true, true); }
static void t4(void) { body(6, 3, 0, true, false); }
static void t5(void) { body(5, 2, 3, false, false); }
const vf_scenario vf_scenarios[] = { { "sizes", s1, 0 }, { "labels-out-of-range", s2, 0 }, { "types", s3, 0 }, { "primary", s4, 0 }, { "three-types", s5, 0 }, { "types-primary-out-of-range", s6, 0 }, { "large", s7, 0 },
	{ "seven-points", t1, 1 }, { "six-points-types", t2, 1 }, { "five-points-all", t3, 1 }, { "six-points-primary", t4, 1 }, { "five-points-three-types", t5, 1 }, { 0 } };

#else /* PROP == 14 */

static scc_ClusteringStats ST;
static void describe(void)
{
	note_space();
	vf_note("%d clusters, ", K);
	vf_note_labels("labels (-1 unassigned, -2 not a cluster)", L, S.n);
}

static void eq(const char* what, double got, double exp, bool exact)
{
	const double tol = exact ? 0.0 : 1e-12 * fabs(exp);
	if (!(fabs(got - exp) <= tol)) vf_fail("%s is reported as %.17g, it is %.17g", what, got, exp);
}

static void check_stats(int n)
{
	static int size[BIGN];
	static double mn[BIGN], mx[BIGN], sm[BIGN];
	int assigned = 0, pop = 0, single = 0, smin = 1 << 30, smax = 0;
	for (int k = 0; k < K; ++k) { size[k] = 0; mn[k] = INFINITY; mx[k] = 0.0; sm[k] = 0.0; }
	for (int i = 0; i < n; ++i) if (L[i] >= 0) { ++size[L[i]]; ++assigned; }
	for (int i = 0; i < n; ++i) if (L[i] >= 0) for (int j = i + 1; j < n; ++j) if (L[j] == L[i]) {
		const double d = vf_dist(&S, i, j);
		sm[L[i]] += d;
		if (d < mn[L[i]]) mn[L[i]] = d;
		if (d > mx[L[i]]) mx[L[i]] = d;
	}
	double sum = 0.0, min = INFINITY, max = 0.0, amin = 0.0, amax = 0.0, aw = 0.0, au = 0.0;
	for (int k = 0; k < K; ++k) {
		if (!size[k]) continue;
		++pop;
		if (size[k] < smin) smin = size[k];
		if (size[k] > smax) smax = size[k];
		if (size[k] == 1) { ++single; mn[k] = 0.0; }
		const double pairs = size[k] * (size[k] - 1) / 2.0, mean = size[k] > 1 ? sm[k] / pairs : 0.0;
		sum += sm[k];
		if (mn[k] < min) min = mn[k];
		if (mx[k] > max) max = mx[k];
		amin += mn[k]; amax += mx[k];
		aw += size[k] * mean; au += mean;
	}
	if (ST.num_data_points != (uint64_t) n) vf_fail("%lu data points reported", (unsigned long) ST.num_data_points);
	if (ST.num_assigned != (uint64_t) assigned) vf_fail("%lu assigned points reported, there are %d", (unsigned long) ST.num_assigned, assigned);
	if (ST.num_clusters != (uint64_t) K) vf_fail("%lu clusters reported, there are %d", (unsigned long) ST.num_clusters, K);
	if (ST.num_populated_clusters != (uint64_t) pop) vf_fail("%lu populated clusters reported, there are %d", (unsigned long) ST.num_populated_clusters, pop);
	if (pop == 0) return; /* no cluster to describe */
	if (ST.min_cluster_size != (uint64_t) smin || ST.max_cluster_size != (uint64_t) smax) vf_fail("cluster sizes %lu to %lu reported, they are %d to %d", (unsigned long) ST.min_cluster_size, (unsigned long) ST.max_cluster_size, smin, smax);
	eq("the average cluster size", ST.avg_cluster_size, (double) assigned / pop, false);
	eq("the sum of distances", ST.sum_dists, sum, false);
	eq("the smallest distance", ST.min_dist, min, true);
	eq("the largest distance", ST.max_dist, max, true);
	eq("the average smallest distance", ST.avg_min_dist, amin / pop, false);
	eq("the average largest distance", ST.avg_max_dist, amax / pop, false);
	eq("the weighted average distance", ST.avg_dist_weighted, aw / assigned, false);
	eq("the unweighted average distance", ST.avg_dist_unweighted, au / pop, false);
}

static void explore(const spacecfg* sp, int kmax, bool bad)
{
	vf_set_describe(describe);
	S.n = 0; K = 0;
	if (!choose_space(sp)) return;
	const int p0 = vf_pos();
	if (!vf_shard()) return;
	if (vf_fresh(p0)) setup_space();
	const int n = S.n;
	if (sp->kind == K_LARGE) {
		static const int ks[] = { 1, 2, 7, 30 };
		K = ks[vf_choose(4)];
		const unsigned pat = vf_choose(5);
		for (int i = 0; i < n; ++i) {
			L[i] = pat == 0 ? i % K : pat == 1 ? (i * K) / n : pat == 2 ? ((i * 7) % (K + 1)) - 1 : pat == 3 ? (i < n / 2 ? 0 : K - 1) : (i % 3 ? -1 : (i * 5) % K);
			LAB[i] = L[i] < 0 ? SCC_CLABEL_NA : (scc_Clabel) L[i];
		}
	} else {
		K = vf_range(1, kmax);
		choose_labels(n, bad);
		bad_value(n);
	}
	bool invalid = false;
	for (int i = 0; i < n; ++i) invalid = invalid || L[i] == -2;
	deep = (K & 1);
	scc_Clustering* c = make(n);
	memset(&ST, 0x7e, sizeof ST);
	const scc_ErrorCode e = scc_get_clustering_stats(dataset(), c, &ST);
	vf_transition();
	if (invalid) {
		if (e != SCC_ER_INVALID_INPUT) vf_fail("%s for labels that are out of range", vf_ecname(e));
		static const scc_ClusteringStats zero;
		if (ST.num_data_points || ST.num_clusters || ST.max_dist != 0.0 || memcmp(&zero, &ST, sizeof ST)) vf_fail("statistics reported together with an error");
	} else {
		if (e != SCC_ER_OK) vf_fail("statistics fail with %s", vf_ecname(e));
		check_stats(n);
	}
	for (int i = 0; i < n; ++i) { const scc_Clabel want = L[i] >= 0 ? (scc_Clabel) L[i] : LAB[i]; if (LAB[i] != want) vf_fail("the labels were changed"); }
	scc_free_clustering(&c);
	if (on_backend && B.open_objs) vf_fail("search objects left open");
	vf_validated();
	const uint64_t h = vf_mix(lab_hash(n), hash_space());
	vf_state(h);
	vf_digest(vf_mix(h, bits(ST.sum_dists) + ST.num_assigned * 131 + ST.num_populated_clusters));
	vf_outcome(vf_mix(bits(ST.max_dist), bits(ST.sum_dists) * 100 + ST.num_assigned * 10 + ST.num_populated_clusters));
	if (vf_want_sample()) vf_sample("%s", vf_ecname(e));
}

#define SC(name, kmax, bad, ...) static void name(void) { static const spacecfg c = { __VA_ARGS__ }; explore(&c, kmax, bad); }
SC(s1, 3, false, K_LEVELS, 2, 4, 4, 1)
SC(s2, 3, false, K_LEVELS, 4, 4, 3, 1)
SC(s3, 2, true, K_GRID1, 1, 4, 3, 1)
SC(s4, 3, false, K_GRID1, 5, 5, 3, 1)
SC(s5, 1, false, K_LARGE, 0, 0, 0, 1)
SC(s6, 3, false, K_GRID2, 4, 4, 3, 1)
SC(s7, 2, false, K_GRID1, 6, 6, 3, -1)
SC(s8, 4, true, K_GRID2, 1, 3, 3, 1)
SC(t1, 3, false, K_LEVELS, 5, 5, 2, 1)
SC(t2, 4, false, K_GRID1, 6, 6, 3, 1)
SC(t3, 3, true, K_GRID2, 4, 4, 3, 1)
SC(t4, 3, false, K_GRID1, 7, 7, 2, 1)
SC(z1, 3, false, K_LEVELS, 3, 4, 4, 1, 1)
SC(z2, 3, false, K_GRID1, 5, 5, 3, 1, 1)
const vf_scenario vf_scenarios[] = { { "identical-points", s1, 0 }, { "levels", s2, 0 }, { "labels-out-of-range", s3, 0 }, { "five-points", s4, 0 }, { "large", s5, 0 }, { "plane", s6, 0 }, { "six-points-supplied-distances", s7, 0 }, { "few-points-many-clusters", s8, 0 },
	{ "five-points-levels", t1, 1 }, { "six-points", t2, 1 }, { "plane-out-of-range", t3, 1 }, { "seven-points", t4, 1 }, { "scaled", z1, 0 }, { "scaled-grid", z2, 0 }, { 0 } };
#endif
