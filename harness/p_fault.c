/* Exhaustive enumeration of faults. PROP 10: every allocation (and pair of allocations, and every
 * point from which all allocations fail). PROP 11: every call to the distance functions (and pairs,
 * closing calls, and a distance call together with an allocation), with the protocol monitored. */
#include "spaces.h"

const int vf_watchdog_seconds = 40;

enum { OP_SC, OP_SC_EXT, OP_HIER, OP_HIER_OLD, OP_HIER_SHARED, OP_STATS, OP_CHECK, OP_EMPTY, OP_EXIST_DEEP, OP_EXIST_SHARED, OP_COPY, OP_DATA, OP_CHAIN, N_OPS };
static const char* const opname[] = { "sc_clustering", "sc_clustering with the caller's label array", "hierarchical_clustering", "hierarchical_clustering of existing clusters", "hierarchical_clustering of existing clusters in the caller's array",
	"get_clustering_stats", "check_clustering", "init_empty_clustering", "init_existing_clustering (copied)", "init_existing_clustering (shared)", "copy_clustering", "init_data_set", "sc_clustering, then hierarchical_clustering" };

typedef struct {
	spacecfg sp;
	unsigned ops;      /* bit mask */
	int sz_hi;
	int types, prim, srad, um, rad;
	int pairs;         /* 0 single faults, 1 pairs too */
} cfg;

#define SC_OPS ((1u << OP_SC) | (1u << OP_SC_EXT))
#define HIER_OPS ((1u << OP_HIER) | (1u << OP_HIER_OLD) | (1u << OP_HIER_SHARED))
#define OTHER_OPS ((1u << OP_STATS) | (1u << OP_CHECK) | (1u << OP_EMPTY) | (1u << OP_EXIST_DEEP) | (1u << OP_EXIST_SHARED) | (1u << OP_COPY) | (1u << OP_DATA) | (1u << OP_CHAIN))

static int op, batch;
static scc_ClusterOptions O;
static uint32_t TC[4];
static scc_TypeLabel TL[BIGN];
static scc_PointIndex PRIM[BIGN];
static scc_Clabel EXT[BIGN], OLDLAB[BIGN];
static int oldK, one;
static long f1, f2, fsticky, g1, g2, gclose, gcheck;

typedef struct { scc_ErrorCode ec; uint64_t K; scc_Clabel lab[BIGN]; uint64_t extra; long allocs, calls, closes, checks; } obs;
static obs BASE, GOT;

static void describe(void)
{
	note_space();
	vf_note("%s; ", opname[op]);
	if (op == OP_SC || op == OP_SC_EXT || op == OP_CHAIN || op == OP_CHECK) vf_note_options(&O, S.n);
	else vf_note("size=%u batch_assign=%d; ", O.size_constraint, batch);
	if (f1) vf_note("allocation %ld fails; ", f1);
	if (f2) vf_note("allocation %ld fails; ", f2);
	if (fsticky) vf_note("allocations fail from number %ld on; ", fsticky);
	if (g1) vf_note("distance call %ld fails; ", g1);
	if (g2) vf_note("distance call %ld fails; ", g2);
	if (gclose) vf_note("closing call %ld fails; ", gclose);
	if (gcheck) vf_note("check of the data set number %ld fails; ", gcheck);
}

static void arm(void)
{
	vf_al.count = vf_al.failed = 0;
	vf_alloc_arm(f1, f2, fsticky);
	if (on_backend) {
		B.calls = B.failed = B.close_calls = B.close_failed = B.check_calls = 0;
		B.fail_at = g1; B.fail_at2 = g2; B.close_fail_at = gclose; B.check_fail_at = gcheck;
	}
}

static void disarm(void)
{
	vf_alloc_disarm();
	if (on_backend) B.fail_at = B.fail_at2 = B.close_fail_at = B.check_fail_at = 0;
}

static void read_clustering(scc_Clustering* c, uint64_t* K, scc_Clabel* lab)
{
	uint64_t n = 0;
	if (!scc_is_initialized_clustering(c)) vf_fail("the clustering object is no longer initialized");
	if (scc_get_clustering_info(c, &n, K) != SCC_ER_OK || n != (uint64_t) S.n) vf_fail("the clustering object lost its size");
	for (int i = 0; i < S.n; ++i) lab[i] = SCC_CLABEL_NA;
	const scc_ErrorCode e = scc_get_cluster_labels(c, (size_t) S.n, lab);
	if (*K == 0) {
		if (e != SCC_ER_INVALID_INPUT) vf_fail("labels of an empty clustering: %s", vf_ecname(e));
		for (int i = 0; i < S.n; ++i) lab[i] = SCC_CLABEL_NA;
	} else if (e != SCC_ER_OK) vf_fail("no labels although there are %lu clusters: %s", (unsigned long) *K, vf_ecname(e));
}

static scc_ErrorCode call(scc_Clustering* c, scc_Clustering** made, scc_DataSet** dmade, uint64_t* extra)
{
	void* ds = dataset();
	*extra = 0;
	switch (op) {
	case OP_SC: case OP_SC_EXT: return scc_sc_clustering(ds, &O, c);
	case OP_HIER: case OP_HIER_OLD: case OP_HIER_SHARED: return scc_hierarchical_clustering(ds, O.size_constraint, batch, c);
	case OP_STATS: {
		scc_ClusteringStats st; memset(&st, 0x5a, sizeof st);
		const scc_ErrorCode e = scc_get_clustering_stats(ds, c, &st);
		if (e == SCC_ER_OK) for (size_t i = 0; i < sizeof st / 8; ++i) { uint64_t w; memcpy(&w, (char*) &st + 8 * i, 8); *extra = vf_mix(*extra, w); }
		return e; }
	case OP_CHECK: {
		bool ok = false;
		const scc_ErrorCode e = scc_check_clustering(c, &O, &ok);
		if (e == SCC_ER_OK) *extra = 1 + ok;
		return e; }
	case OP_EMPTY: return scc_init_empty_clustering((uint64_t) S.n, NULL, made);
	case OP_EXIST_DEEP: return scc_init_existing_clustering((uint64_t) S.n, (uint64_t) oldK, OLDLAB, true, made);
	case OP_EXIST_SHARED: return scc_init_existing_clustering((uint64_t) S.n, (uint64_t) oldK, EXT, false, made);
	case OP_COPY: return scc_copy_clustering(c, made);
	case OP_DATA: return scc_init_data_set((uint64_t) S.n, 1, (size_t) S.n, XY, dmade);
	case OP_CHAIN: {
		scc_ErrorCode e = scc_sc_clustering(ds, &O, c);
		if (e == SCC_ER_OK) { *extra = 5; e = scc_hierarchical_clustering(ds, O.size_constraint, batch, c); }
		return e; }
	}
	return SCC_ER_OK;
}

static scc_Clustering* prepare(void)
{
	scc_Clustering* c = NULL;
	scc_ErrorCode e = SCC_ER_OK;
	for (int i = 0; i < S.n; ++i) EXT[i] = (op == OP_SC_EXT) ? 7 : OLDLAB[i];
	switch (op) {
	case OP_SC: case OP_HIER: case OP_CHAIN: e = scc_init_empty_clustering((uint64_t) S.n, NULL, &c); break;
	case OP_SC_EXT: e = scc_init_empty_clustering((uint64_t) S.n, EXT, &c); break;
	case OP_HIER_OLD: e = scc_init_existing_clustering((uint64_t) S.n, (uint64_t) oldK, OLDLAB, true, &c); break;
	case OP_HIER_SHARED: e = scc_init_existing_clustering((uint64_t) S.n, (uint64_t) oldK, EXT, false, &c); break;
	case OP_STATS: case OP_CHECK: case OP_COPY: e = scc_init_existing_clustering((uint64_t) S.n, (uint64_t) oldK, EXT, false, &c); break;
	default: break;
	}
	if (e != SCC_ER_OK) vf_fail("could not prepare the clustering object: %s", vf_ecname(e));
	return c;
}

static void run(obs* r, bool baseline)
{
	const long live0 = vf_al.live;
	scc_Clustering* c = prepare();
	scc_Clustering* made = (scc_Clustering*) 8;
	scc_DataSet* dmade = (scc_DataSet*) 8;
	uint64_t K0 = 0;
	static scc_Clabel lab0[BIGN];
	if (c) read_clustering(c, &K0, lab0);
	arm();
	r->ec = call(c, &made, &dmade, &r->extra);
	vf_transition();
	r->allocs = vf_al.count; r->calls = B.calls; r->closes = B.close_calls; r->checks = B.check_calls;
	const long failed = vf_al.failed, sfailed = !on_backend ? 0 : B.failed, cfailed = !on_backend ? 0 : B.close_failed;
	const bool checkfailed = on_backend && gcheck && B.check_calls >= gcheck;
	disarm();
	if (on_backend && B.open_objs) vf_fail("%ld search objects were not closed (%s)", B.open_objs, vf_ecname(r->ec));
	const bool makes = op >= OP_EMPTY && op <= OP_COPY;
	if (!baseline) {
		/* what may be reported */
		if (r->ec != SCC_ER_OK && r->ec != BASE.ec) {
			unsigned allowed = 0;
			if (failed) allowed |= 1u << SCC_ER_NO_MEMORY;
			if (failed && !on_backend) allowed |= 1u << SCC_ER_DIST_SEARCH_ERROR;
			if (sfailed || cfailed) allowed |= 1u << SCC_ER_DIST_SEARCH_ERROR;
			if (checkfailed) allowed |= 1u << SCC_ER_INVALID_INPUT;
			if (!(allowed & (1u << r->ec))) vf_fail("%s with %ld failed allocations, %ld failed distance calls, %ld failed closing calls (%s without faults)", vf_ecname(r->ec), failed, sfailed, cfailed, vf_ecname(BASE.ec));
		}
		if (sfailed && r->ec == SCC_ER_OK) vf_fail("success although a distance call failed");
		if (checkfailed && r->ec == SCC_ER_OK) vf_fail("success although the data set was rejected");
		if (r->ec == SCC_ER_OK && BASE.ec != SCC_ER_OK) vf_fail("success with a fault, %s without", vf_ecname(BASE.ec));
		if (!failed && !sfailed && !cfailed && !checkfailed && r->ec != BASE.ec) vf_fail("%s, %s the first time", vf_ecname(r->ec), vf_ecname(BASE.ec));
	}
	if (r->ec != SCC_ER_OK) {
		char msg[200];
		if (!scc_get_latest_error(sizeof msg, msg) || strstr(msg, "No error")) vf_fail("%s, but the latest error is not reported", vf_ecname(r->ec));
	}
	/* the state left behind */
	r->K = 0;
	memset(r->lab, 0, sizeof(scc_Clabel) * (size_t) S.n);
	if (makes) {
		if (r->ec == SCC_ER_OK) {
			if (made == NULL || made == (scc_Clustering*) 8) vf_fail("success without an object");
			read_clustering(made, &r->K, r->lab);
			if (op == OP_EXIST_DEEP) { OLDLAB[0] = (scc_Clabel) ((int) OLDLAB[0] ^ 1); uint64_t K; static scc_Clabel l[BIGN]; read_clustering(made, &K, l); OLDLAB[0] = (scc_Clabel) ((int) OLDLAB[0] ^ 1); if (memcmp(l, r->lab, sizeof(scc_Clabel) * (size_t) S.n)) vf_fail("a copied clustering follows the caller's array"); }
			scc_free_clustering(&made);
			if (made) vf_fail("the object was not reset when freed");
		} else if (made == (scc_Clustering*) 8) vf_fail("%s leaves the output pointer undefined", vf_ecname(r->ec));
		else if (made != NULL) vf_fail("%s, but an object was returned", vf_ecname(r->ec));
	} else if (op == OP_DATA) {
		if (r->ec == SCC_ER_OK) {
			if (!scc_is_initialized_data_set(dmade)) vf_fail("success without a data set");
			scc_free_data_set(&dmade);
		} else if (dmade != NULL) vf_fail("%s, but a data set was returned", vf_ecname(r->ec));
	}
	if (c) {
		uint64_t K = 0;
		static scc_Clabel lab[BIGN];
		read_clustering(c, &K, lab);
		const bool changes = op <= OP_HIER_SHARED || op == OP_CHAIN;
		if (changes && r->ec == SCC_ER_OK) { r->K = K; memcpy(r->lab, lab, sizeof(scc_Clabel) * (size_t) S.n); }
		else if (op == OP_CHAIN && r->extra == 5) { if (K == 0) vf_fail("the clusters are gone after a failed refinement"); }
		else {
			if (K != K0) vf_fail("%s leaves %lu clusters, there were %lu", vf_ecname(r->ec), (unsigned long) K, (unsigned long) K0);
			if (memcmp(lab, lab0, sizeof(scc_Clabel) * (size_t) S.n)) vf_fail("%s changed the labels", vf_ecname(r->ec));
		}
		if (op == OP_HIER_SHARED && r->ec != SCC_ER_OK && memcmp(EXT, OLDLAB, sizeof(scc_Clabel) * (size_t) S.n)) vf_fail("%s changed the caller's labels", vf_ecname(r->ec));
		/* the same call works once the fault is gone */
		if (!baseline && r->ec != SCC_ER_OK && BASE.ec == SCC_ER_OK && !(op == OP_CHAIN && r->extra == 5)) {
			scc_Clustering* m2 = NULL; scc_DataSet* d2 = NULL; uint64_t x = 0;
			const scc_ErrorCode e = call(c, &m2, &d2, &x);
			if (e != SCC_ER_OK) vf_fail("the call fails again without a fault: %s after %s", vf_ecname(e), vf_ecname(r->ec));
			if (x != BASE.extra) vf_fail("another answer when repeated after a fault");
			if (changes) {
				read_clustering(c, &K, lab);
				if (K != BASE.K || memcmp(lab, BASE.lab, sizeof(scc_Clabel) * (size_t) S.n)) vf_fail("another clustering when repeated after a fault");
			}
			if (m2) scc_free_clustering(&m2);
		}
		scc_free_clustering(&c);
	}
	if (vf_al.live != live0) vf_fail("%ld blocks of memory leak (%s)", vf_al.live - live0, vf_ecname(r->ec));
	if (!baseline && r->ec == SCC_ER_OK) {
		if (r->K != BASE.K || r->extra != BASE.extra || memcmp(r->lab, BASE.lab, sizeof(scc_Clabel) * (size_t) S.n)) vf_fail("success with another result than without the fault");
	}
}

static bool choose_options(const cfg* c)
{
	static const int sel[12][2] = { { 0, 0 }, { 1, 0 }, { 1, 2 }, { 2, 0 }, { 3, 3 }, { 0, 2 }, { 3, 2 }, { 2, 3 }, { 0, 3 }, { 1, 3 }, { 2, 2 }, { 3, 0 } };
	O = scc_get_default_options();
	O.size_constraint = (uint32_t) vf_range(2, c->sz_hi);
	batch = 0;
	const bool sc = op == OP_SC || op == OP_SC_EXT || op == OP_CHAIN;
	if (op == OP_HIER || op == OP_HIER_OLD || op == OP_HIER_SHARED || op == OP_CHAIN) batch = (int) vf_choose(2);
	one = 0;
	if (op == OP_HIER_OLD || op == OP_HIER_SHARED || op == OP_EXIST_DEEP || op == OP_EXIST_SHARED || op == OP_STATS || op == OP_COPY) one = (int) vf_choose(2); /* a single existing cluster */
	if (!sc && op != OP_CHECK) return true;
	if (sc) O.seed_method = (scc_SeedMethod) vf_choose(6);
	if (O.seed_method == SCC_SM_BATCHES) O.batch_size = vf_choose(2) * 2;
	if (c->srad && nrad && vf_choose(2)) { O.seed_radius = SCC_RM_USE_SUPPLIED; O.seed_supplied_radius = radlist[nrad - 1]; }
	if (c->prim && vf_choose(2)) {
		size_t k = 0;
		for (int i = 0; i < S.n; ++i) if (i % 3 != 1) PRIM[k++] = (scc_PointIndex) i;
		O.primary_data_points = PRIM; O.len_primary_data_points = k;
	}
	if (c->types && O.seed_method != SCC_SM_BATCHES) {
		/* no types, or at least 1 and 0, 1 and 1, 0 and 0 of them */
#if PROP == 10
		const unsigned t = vf_choose(4);
#else
		static const unsigned TT[3] = { 0, 2, 3 };
		const unsigned t = vf_tier ? vf_choose(4) : TT[vf_choose(3)];
#endif
		if (t) {
			O.num_types = 2; TC[0] = t < 3; TC[1] = t == 2;
			if (TC[0] + TC[1] > O.size_constraint) return false;
			O.type_constraints = TC; O.type_labels = TL; O.len_type_labels = (size_t) S.n;
			for (int i = 0; i < S.n; ++i) TL[i] = (scc_TypeLabel) (i & 1);
		}
	}
	if (!sc) return true;
	O.primary_radius = O.secondary_radius = SCC_RM_NO_RADIUS;
	static const scc_UnassignedMethod um[] = { SCC_UM_IGNORE, SCC_UM_ANY_NEIGHBOR, SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED };
	if (O.seed_method == SCC_SM_BATCHES) {
		O.primary_radius = SCC_RM_USE_SEED_RADIUS;
		O.primary_unassigned_method = um[vf_choose(2)];
		O.secondary_unassigned_method = SCC_UM_IGNORE;
		return true;
	}
	if (c->um) {
		const unsigned s = vf_choose(vf_tier ? 12 : 8);
		O.primary_unassigned_method = um[sel[s][0]]; O.secondary_unassigned_method = um[sel[s][1]];
		if (c->rad && s > 0 && vf_choose(2)) O.primary_radius = O.secondary_radius = SCC_RM_USE_ESTIMATED;
	} else { O.primary_unassigned_method = um[1]; O.secondary_unassigned_method = um[2]; }
	return true;
}

static uint64_t space_hash, opt_hash;

static void explore(const cfg* c)
{
	vf_set_describe(describe);
	f1 = f2 = fsticky = g1 = g2 = gclose = gcheck = 0;
	int ops[N_OPS], no = 0;
	for (int o = 0; o < N_OPS; ++o) if (c->ops & (1u << o)) ops[no++] = o;
	op = ops[vf_choose((unsigned) no)];
	if (!choose_space(&c->sp)) return;
	const int p0 = vf_pos();
	if (c->sp.kind != K_LARGE && !vf_shard()) return;
	if (vf_fresh(p0)) { setup_space(); space_hash = hash_space(); }
	if (!choose_options(c)) return;
	const int p1 = vf_pos();
	if (c->sp.kind == K_LARGE) {
		if (!vf_shard()) return;
		if (vf_fresh(p1)) { setup_space(); space_hash = hash_space(); }
	}
	if (vf_fresh(p1)) {
		oldK = op == OP_COPY || op == OP_STATS || op == OP_CHECK ? 2 : S.n >= 200 ? 3 : 2;
		for (int i = 0; i < S.n; ++i) OLDLAB[i] = (scc_Clabel) (i % oldK);
		if (op == OP_HIER_OLD || op == OP_HIER_SHARED) for (int i = 0; i < S.n; ++i) OLDLAB[i] = (scc_Clabel) (i * 5 < S.n ? 0 : 1 + (oldK == 3 && (i & 1)));
		if (one) { oldK = 1; for (int i = 0; i < S.n; ++i) OLDLAB[i] = i + 1 < S.n || (i & 1) ? (scc_Clabel) 0 : SCC_CLABEL_NA; }
		opt_hash = vf_mix(vf_mix((uint64_t) op, O.size_constraint * 100u + (uint64_t) O.seed_method * 10u + (uint64_t) batch), (uint64_t) O.primary_unassigned_method * 1000u + (uint64_t) O.secondary_unassigned_method * 100u + (uint64_t) O.primary_radius * 10u + O.num_types);
		opt_hash = vf_mix(opt_hash, (uint64_t) O.seed_radius * 1000u + O.len_primary_data_points * 10u + O.batch_size);
		if (O.num_types) opt_hash = vf_mix(opt_hash, TC[0] * 2 + TC[1]);
		opt_hash = vf_mix(opt_hash, (uint64_t) one);
		run(&BASE, true);
	}
	/* choose the fault */
#if PROP == 10
	const unsigned kind = vf_choose(c->pairs ? 3u : 2u);
	const long m = BASE.allocs;
	if (m == 0) return;
	if (kind == 0) f1 = 1 + (long) vf_choose((unsigned) m);
	else if (kind == 1) fsticky = 1 + (long) vf_choose((unsigned) m);
	else { f1 = 1 + (long) vf_choose((unsigned) m); f2 = f1 + 1 + (long) vf_choose((unsigned) (m - f1 + 4)); }
#else
	const unsigned kind = vf_choose(c->pairs ? 5u : 3u);
	const long m = BASE.calls;
	if (kind == 0) { if (m == 0) return; g1 = 1 + (long) vf_choose((unsigned) m); }
	else if (kind == 1) { if (BASE.closes == 0) return; gclose = 1 + (long) vf_choose((unsigned) BASE.closes); }
	else if (kind == 2) { if (BASE.checks == 0) return; gcheck = 1 + (long) vf_choose((unsigned) BASE.checks); }
	else if (kind == 3) {
		if (m == 0 || BASE.closes == 0) return;
		g1 = 1 + (long) vf_choose((unsigned) m);
		gclose = 1 + (long) vf_choose((unsigned) BASE.closes);
	} else {
		if (m == 0 || BASE.allocs == 0) return;
		g1 = 1 + (long) vf_choose((unsigned) m);
		f1 = 1 + (long) vf_choose((unsigned) BASE.allocs);
	}
#endif
	run(&GOT, false);
	vf_validated();
	uint64_t h = vf_mix(vf_mix(space_hash, opt_hash), (uint64_t) (f1 * 1000003 + f2 * 1009 + fsticky * 7919 + g1 * 104729 + g2 * 31 + gclose * 1299709 + gcheck * 15485863));
	if (vf_al.failed || (on_backend && (B.failed || B.close_failed))) vf_nontrivial(h);
	vf_state(vf_mix(h, (uint64_t) GOT.ec));
	vf_outcome(vf_mix((uint64_t) GOT.ec, (uint64_t) op));
	if (vf_want_sample()) vf_sample("%s", vf_ecname(GOT.ec));
}

#define SC(name, ...) static void name(void) { static const cfg c = { __VA_ARGS__ }; explore(&c); }
/*                          kind     n     lv tb   ops       size types prim srad um rad pairs */
#if PROP == 10
SC(s1, { K_LEVELS, 4, 4, 2, 1 }, SC_OPS, 2, 1, 1, 1, 1, 1, 0)
SC(s2, { K_GRID1,  4, 5, 2, 1 }, SC_OPS, 3, 1, 0, 1, 1, 1, 0)
SC(s3, { K_LEVELS, 3, 4, 2, 1 }, HIER_OPS | OTHER_OPS, 2, 1, 0, 0, 1, 0, 1)
SC(s4, { K_GRID1,  4, 6, 3, 1 }, HIER_OPS | OTHER_OPS, 2, 0, 0, 0, 0, 0, 0)
SC(s5, { K_LARGE,  0, 0, 3, 1 }, SC_OPS | HIER_OPS, 2, 1, 1, 0, 0, 0, 0)
SC(s6, { K_GRID1,  4, 4, 3, 1 }, SC_OPS, 2, 1, 1, 0, 1, 0, 1)
SC(t1, { K_LEVELS, 4, 4, 2, 1 }, SC_OPS | HIER_OPS | OTHER_OPS, 3, 1, 1, 1, 1, 1, 1)
SC(t2, { K_GRID1,  5, 6, 2, 1 }, SC_OPS | HIER_OPS | OTHER_OPS, 3, 1, 1, 1, 1, 1, 1)
SC(t3, { K_LARGE,  0, 0, 0, 1 }, SC_OPS, 3, 1, 1, 1, 1, 1, 0)
const vf_scenario vf_scenarios[] = { { "clustering", s1, 0 }, { "clustering-built-in-distances", s2, 0 }, { "other-functions-pairs", s3, 0 }, { "other-functions", s4, 0 }, { "large", s5, 0 }, { "clustering-pairs", s6, 0 }, { "all-pairs", t1, 1 }, { "all-pairs-built-in-distances", t2, 1 }, { "large-all", t3, 1 }, { 0 } };
#else
SC(s1, { K_LEVELS, 4, 4, 2, 1 }, SC_OPS, 2, 1, 1, 1, 1, 1, 1)
SC(s2, { K_LEVELS, 3, 4, 3, 1 }, HIER_OPS | OTHER_OPS, 2, 1, 0, 0, 1, 0, 1)
SC(s3, { K_LEVELS, 5, 5, 2, 1 }, SC_OPS | HIER_OPS | (1u << OP_CHAIN), 3, 0, 0, 1, 1, 1, 0)
SC(s4, { K_LARGE,  0, 0, 3, -1 }, SC_OPS | HIER_OPS, 2, 1, 1, 0, 0, 0, 0)
SC(t1, { K_LEVELS, 5, 5, 2, 1 }, SC_OPS | HIER_OPS | OTHER_OPS, 3, 1, 1, 1, 1, 1, 1)
SC(t2, { K_LEVELS, 4, 4, 3, 2 }, SC_OPS | HIER_OPS | OTHER_OPS, 3, 1, 1, 1, 1, 1, 1)
SC(t3, { K_LEVELS, 6, 6, 2, 1 }, HIER_OPS, 3, 0, 0, 0, 0, 0, 1)
const vf_scenario vf_scenarios[] = { { "clustering", s1, 0 }, { "other-functions", s2, 0 }, { "five-points", s3, 0 }, { "large", s4, 0 }, { "five-points-all", t1, 1 }, { "three-levels", t2, 1 }, { "hierarchical-six-points", t3, 1 }, { 0 } };
#endif
