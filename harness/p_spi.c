/* PROP 12: replacing the distance functions. (a) every history of set and reset calls up to a depth:
 * each function comes from where the model says, groups are replaced together or not at all.
 * (b) equivalent functions give identical results in every operation. */
#include "spaces.h"
#include "src/dist_search_imp.h"

const int vf_watchdog_seconds = 40;

/* ------------------------------------------------ (a) set / reset state machine */
#define N 6
static const double PTS[N] = { 0.0, 1.0, 2.0, 10.0, 12.0, 13.0 };
static scc_DataSet* D6;
static long hits[2][10];

#define FWD(p, X) \
static bool X##check(void* d) { ++hits[p][0]; return iscc_imp_check_data_set(d); } \
static size_t X##num(void* d) { ++hits[p][1]; return iscc_imp_num_data_points(d); } \
static bool X##mat(void* d, size_t n, const scc_PointIndex* i, double* o) { ++hits[p][2]; return iscc_imp_get_dist_matrix(d, n, i, o); } \
static bool X##rows(void* d, size_t n, const scc_PointIndex* i, size_t m, const scc_PointIndex* j, double* o) { ++hits[p][3]; return iscc_imp_get_dist_rows(d, n, i, m, j, o); } \
static bool X##imax(void* d, size_t n, const scc_PointIndex* i, iscc_MaxDistObject** o) { ++hits[p][4]; return iscc_imp_init_max_dist_object(d, n, i, o); } \
static bool X##max(iscc_MaxDistObject* o, size_t n, const scc_PointIndex* i, scc_PointIndex* oi, double* od) { ++hits[p][5]; return iscc_imp_get_max_dist(o, n, i, oi, od); } \
static bool X##cmax(iscc_MaxDistObject** o) { ++hits[p][6]; return iscc_imp_close_max_dist_object(o); } \
static bool X##inn(void* d, size_t n, const scc_PointIndex* i, iscc_NNSearchObject** o) { ++hits[p][7]; return iscc_imp_init_nn_search_object(d, n, i, o); } \
static bool X##nn(iscc_NNSearchObject* o, size_t n, const scc_PointIndex* i, uint32_t k, bool rs, double r, size_t* ok, scc_PointIndex* oq, scc_PointIndex* on) { ++hits[p][8]; return iscc_imp_nearest_neighbor_search(o, n, i, k, rs, r, ok, oq, on); } \
static bool X##cnn(iscc_NNSearchObject** o) { ++hits[p][9]; return iscc_imp_close_nn_search_object(o); }
FWD(0, a_)
FWD(1, b_)

static bool do_set(int p, unsigned m)
{
#define F(i, f) (!((m >> i) & 1) ? NULL : p ? b_##f : a_##f)
	return scc_set_dist_functions(F(0, check), F(1, num), F(2, mat), F(3, rows), F(4, imax), F(5, max), F(6, cmax), F(7, inn), F(8, nn), F(9, cnn));
}

static int model[10]; /* -1 built-in, 0, 1 */
static int hist[8], nhist;

static void describe_sm(void)
{
	static const char* const fn[10] = { "check_data_set", "num_data_points", "get_dist_matrix", "get_dist_rows", "init_max_dist", "get_max_dist", "close_max_dist", "init_nn_search", "nn_search", "close_nn_search" };
	for (int i = 0; i < nhist; ++i) {
		if (hist[i] < 0) { vf_note("reset; "); continue; }
		vf_note("set %c {", 'A' + (hist[i] >> 10));
		for (int b = 0; b < 10; ++b) if ((hist[i] >> b) & 1) vf_note("%s ", fn[b]);
		vf_note("}; ");
	}
}

static bool group_ok(unsigned m) { const unsigned a = (m >> 4) & 7, b = (m >> 7) & 7; return (a == 0 || a == 7) && (b == 0 || b == 7); }

static void probe(void)
{
	static int ref_done;
	static uint64_t ref;
	memset(hits, 0, sizeof hits);
	scc_Clustering* c = NULL;
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 2;
	o.primary_radius = SCC_RM_USE_ESTIMATED;
	scc_ClusteringStats st;
	scc_Clabel l[N];
	uint64_t h = 1;
	if (scc_init_empty_clustering(N, NULL, &c) != SCC_ER_OK) vf_fail("could not make a clustering");
	if (scc_sc_clustering(D6, &o, c) != SCC_ER_OK || scc_get_cluster_labels(c, N, l) != SCC_ER_OK) vf_fail("clustering fails after the distance functions were changed");
	for (int i = 0; i < N; ++i) h = vf_mix(h, (uint64_t) vf_lab(l[i]));
	if (scc_get_clustering_stats(D6, c, &st) != SCC_ER_OK) vf_fail("statistics fail after the distance functions were changed");
	h = vf_mix(h, (uint64_t) (st.sum_dists * 8));
	scc_free_clustering(&c);
	if (scc_init_empty_clustering(N, NULL, &c) != SCC_ER_OK) vf_fail("could not make a clustering");
	if (scc_hierarchical_clustering(D6, 2, false, c) != SCC_ER_OK || scc_get_cluster_labels(c, N, l) != SCC_ER_OK) vf_fail("hierarchical clustering fails after the distance functions were changed");
	for (int i = 0; i < N; ++i) h = vf_mix(h, (uint64_t) vf_lab(l[i]));
	scc_free_clustering(&c);
	if (!ref_done) { ref = h; ref_done = 1; }
	if (h != ref) vf_fail("another result after the distance functions were changed to equivalent ones");
	for (int f = 0; f < 10; ++f) for (int p = 0; p < 2; ++p) {
		if (hits[p][f] && model[f] != p) vf_fail("function %d of set %c was called, the one in use should be %s", f, 'A' + p, model[f] < 0 ? "the built-in one" : "from the other set");
		if (!hits[p][f] && model[f] == p) vf_fail("function %d of set %c is never called although it was set", f, 'A' + p);
	}
	vf_validated();
}

static void machine(const unsigned* masks, int nmasks, int depth, bool probe_each)
{
	vf_set_describe(describe_sm);
	nhist = 0;
	vf_backend_uninstall();
	if (!D6 && scc_init_data_set(N, 1, N, PTS, &D6) != SCC_ER_OK) vf_fail("could not make a data set");
	for (int i = 0; i < 10; ++i) model[i] = -1;
	for (int d = 0; d < depth; ++d) {
		const int c = (int) vf_choose((unsigned) (2 * nmasks + 1));
		if (d == 0 && !vf_shard()) return;
		if (c == 2 * nmasks) {
			hist[nhist++] = -1;
			if (!scc_reset_dist_functions()) vf_fail("resetting the distance functions failed");
			for (int i = 0; i < 10; ++i) model[i] = -1;
		} else {
			const unsigned m = masks ? masks[c / 2] : (unsigned) c / 2;
			const int p = c % 2;
			hist[nhist++] = (p << 10) | (int) m;
			const bool ok = do_set(p, m);
			if (ok != group_ok(m)) vf_fail("setting %s functions was %s", group_ok(m) ? "complete groups of" : "an incomplete group of", ok ? "accepted" : "rejected");
			if (group_ok(m)) for (int i = 0; i < 10; ++i) if ((m >> i) & 1) model[i] = p;
		}
		vf_transition();
		if (probe_each || d == depth - 1) probe();
		uint64_t h = 9;
		for (int i = 0; i < 10; ++i) h = vf_mix(h, (uint64_t) (model[i] + 1));
		vf_state(h);
	}
	vf_outcome((uint64_t) nhist * 4096 + (uint64_t) (hist[nhist - 1] + 1));
	if (vf_want_sample()) vf_sample("history");
	vf_backend_uninstall();
}

static const unsigned SMALL[] = { 0, 1, 2, 4, 8, 0x70, 0x380, 0x3ff, 0x10, 0x30, 0x60, 0x80, 0x180, 0x300, 0x71, 0x3f0, 0x1f4 };
static void m1(void) { machine(NULL, 1024, 1, true); }
static void m2(void) { machine(SMALL, 17, 3, false); }
static void m3(void) { machine(NULL, 1024, 2, false); }
static void m4(void) { machine(SMALL, 17, 4, false); }

/* ------------------------------------------------ (b) substitution */
static scc_ClusterOptions O;
static uint32_t TC[4];
static scc_TypeLabel TL[BIGN];
static scc_PointIndex PRIM[BIGN];
static int op, batch;
static int A[BIGN], Bl[BIGN];
static vf_result RA = { .lab = A }, RB = { .lab = Bl };
static bool done;
static const char* const opname[] = { "sc_clustering", "hierarchical_clustering", "statistics" };

static void describe(void)
{
	vf_note_space(&S);
	vf_note("%s; ", opname[op]);
	if (op == 0) vf_note_options(&O, S.n); else vf_note("size=%u batch=%d; ", O.size_constraint, batch);
	if (done) { vf_note("built-in: %s ", vf_ecname(RA.ec)); vf_note_labels("labels", A, S.n); vf_note("replaced: %s ", vf_ecname(RB.ec)); vf_note_labels("labels", Bl, S.n); }
}

static uint64_t run(void* ds, vf_result* r)
{
	if (op == 0) { vf_run_sc(ds, &S, &O, r); return 0; }
	scc_Clustering* c = NULL;
	static scc_Clabel l[BIGN];
	uint64_t h = 0, K = 0;
	r->n = S.n;
	for (int i = 0; i < S.n; ++i) { l[i] = (scc_Clabel) (i % 2); r->lab[i] = -1; }
	if (op == 1) {
		if (batch < 2 ? scc_init_empty_clustering((uint64_t) S.n, NULL, &c) : scc_init_existing_clustering((uint64_t) S.n, 2, l, true, &c)) vf_fail("could not make a clustering");
		r->ec = scc_hierarchical_clustering(ds, O.size_constraint, batch & 1, c);
	} else {
		if (scc_init_existing_clustering((uint64_t) S.n, 2, l, true, &c)) vf_fail("could not make a clustering");
		scc_ClusteringStats st;
		r->ec = scc_get_clustering_stats(ds, c, &st);
		if (r->ec == SCC_ER_OK) for (size_t i = 0; i < sizeof st / 8; ++i) { uint64_t w; memcpy(&w, (char*) &st + 8 * i, 8); h = vf_mix(h, w); }
	}
	vf_transition();
	if (scc_get_clustering_info(c, NULL, &K) != SCC_ER_OK) vf_fail("no information about the clustering");
	r->K = (long) K;
	if (r->ec == SCC_ER_OK) { if (scc_get_cluster_labels(c, (size_t) S.n, l) != SCC_ER_OK) vf_fail("no labels"); for (int i = 0; i < S.n; ++i) r->lab[i] = vf_lab(l[i]); }
	scc_free_clustering(&c);
	return h;
}

static bool choose_op(const spacecfg* sp, int sz_hi, bool types)
{
	static const int sel[6][2] = { { 1, 0 }, { 1, 2 }, { 2, 0 }, { 3, 3 }, { 0, 2 }, { 0, 0 } };
	static const scc_UnassignedMethod um[] = { SCC_UM_IGNORE, SCC_UM_ANY_NEIGHBOR, SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED };
	O = scc_get_default_options();
	op = (int) vf_choose(3);
	batch = 0;
	if (op == 2) return true;
	O.size_constraint = (uint32_t) vf_range(2, sz_hi);
	if (op == 1) { batch = (int) vf_choose(4); return true; }
	O.seed_method = (scc_SeedMethod) vf_choose(6);
	const unsigned r = vf_choose((unsigned) nrad + 1);
	if (r) { O.seed_radius = SCC_RM_USE_SUPPLIED; O.seed_supplied_radius = radlist[r - 1]; }
	if (vf_choose(2)) {
		size_t k = 0;
		for (int i = 0; i < S.n; ++i) if (i % 3 != 1) PRIM[k++] = (scc_PointIndex) i;
		O.primary_data_points = PRIM; O.len_primary_data_points = k;
	}
	if (O.seed_method == SCC_SM_BATCHES) { O.batch_size = vf_choose(3); O.primary_unassigned_method = um[vf_choose(2)]; return true; }
	if (types && vf_choose(2)) {
		O.num_types = 2; TC[0] = TC[1] = 1;
		O.type_constraints = TC; O.type_labels = TL; O.len_type_labels = (size_t) S.n;
		for (int i = 0; i < S.n; ++i) TL[i] = (scc_TypeLabel) (i & 1);
	}
	const unsigned s = vf_choose(6);
	O.primary_unassigned_method = um[sel[s][0]]; O.secondary_unassigned_method = um[sel[s][1]];
	O.primary_radius = O.secondary_radius = SCC_RM_NO_RADIUS;
	switch (vf_choose(3)) {
	case 1: O.primary_radius = O.secondary_radius = SCC_RM_USE_ESTIMATED; break;
	case 2: O.primary_radius = O.secondary_radius = SCC_RM_USE_SUPPLIED; O.primary_supplied_radius = O.secondary_supplied_radius = radlist[nrad - 1]; break;
	default: break;
	}
	(void) sp;
	return true;
}

static void subst(const spacecfg* sp, int sz_hi, bool types)
{
	vf_set_describe(describe);
	done = false;
	if (!choose_space(sp)) return;
	on_backend = false;
	const int p0 = vf_pos();
	if (!vf_shard()) return;
	if (vf_fresh(p0)) setup_space();
	if (!choose_op(sp, sz_hi, types)) return;
	vf_backend_uninstall();
	const uint64_t ha = run(DS, &RA);
	vf_backend_init(&B, &S, 0);
	vf_backend_install();
	const uint64_t hb = run(&B, &RB);
	vf_backend_uninstall();
	done = true;
	vf_validated();
	if (RA.ec != RB.ec || RA.K != RB.K || memcmp(A, Bl, sizeof(int) * (size_t) S.n)) vf_fail("equivalent distance functions give another result");
	if (ha != hb) vf_fail("equivalent distance functions give other statistics");
	if (B.open_objs) vf_fail("search objects left open");
	uint64_t h = vf_mix(hash_space(), vf_hash_result(&RA));
	h = vf_mix(h, (uint64_t) op * 100 + (uint64_t) batch * 10 + O.size_constraint);
	h = vf_mix(h, (uint64_t) O.seed_method * 1000 + (uint64_t) O.primary_unassigned_method * 100 + (uint64_t) O.secondary_unassigned_method * 10 + (uint64_t) O.primary_radius);
	h = vf_mix(h, O.len_primary_data_points * 100 + O.num_types * 10 + O.batch_size);
	if (O.seed_radius == SCC_RM_USE_SUPPLIED) h = vf_mix(h, bits(O.seed_supplied_radius));
	vf_state(h);
	vf_outcome(vf_hash_result(&RA));
	if (vf_want_sample()) vf_sample("identical");
}

#define SC(name, sz, ty, ...) static void name(void) { static const spacecfg c = { __VA_ARGS__ }; subst(&c, sz, ty); }
SC(u1, 3, true, K_GRID1, 3, 5, 3, 1)
SC(u2, 2, true, K_GRID2, 3, 4, 3, 1)
SC(u3, 4, true, K_LARGE, 0, 0, 0, 1)
SC(u4, 3, true, K_GRID1, 6, 6, 3, 1)
SC(v1, 3, true, K_GRID2, 5, 5, 3, 1)
SC(v2, 4, true, K_GRID1, 7, 7, 3, 1)
SC(z1, 3, true, K_GRID1, 3, 4, 3, 1, 1)
const vf_scenario vf_scenarios[] = { { "one-set-call", m1, 0 }, { "three-calls", m2, 0 }, { "line", u1, 0 }, { "plane", u2, 0 }, { "large", u3, 0 }, { "six-points", u4, 1 },
	{ "two-set-calls", m3, 1 }, { "four-calls", m4, 1 }, { "plane-five-points", v1, 1 }, { "seven-points", v2, 1 }, { "scaled-line", z1, 0 }, { 0 } };
