/* Exhaustive exploration of scc_sc_clustering over finite spaces and options. The property
 * that is judged is selected with -DPROP=n. */
#define VF_NO_REDIRECT
#include "spaces.h"

const int vf_watchdog_seconds = 40;

typedef struct {
	spacecfg sp;
	int sz_lo, sz_hi;    /* sz_lo 0: a selection up to the number of points */
	unsigned methods;    /* bit mask of seed methods */
	int srad;            /* 0 none, 1 none and supplied, 2 supplied only */
	int prim;            /* 0 all points, 1 also all non-empty proper subsets, 2 also the explicit full set, 3 only subsets */
	int types;           /* 0 none, 100 a selection with up to 300 types, otherwise largest number of types */
	int um;              /* 0 ignore only, 1 all, 2 all with an assigning method, 3 no secondary, 4 a selection of five */
	int rad;             /* 0 no radii, 1 all kinds for both, 2 seed radius or none, 3 estimated only, 4 all kinds, equal for both */
} cfg;

#define SM(x) (1u << SCC_SM_##x)
#define NNG_METHODS (SM(LEXICAL) | SM(INWARDS_ORDER) | SM(INWARDS_UPDATING) | SM(EXCLUSION_ORDER) | SM(EXCLUSION_UPDATING))
#define ALL_METHODS (NNG_METHODS | SM(BATCHES))

static scc_ClusterOptions O, OC;
static scc_PointIndex PRIM[BIGN];
static char PFLAG[BIGN];
static scc_TypeLabel TL[BIGN];
static int TI[BIGN];
#define MAXT 300
static uint32_t TC[MAXT];
static int CORELAB[BIGN], RESLAB[BIGN];
static vf_result CORE = { .lab = CORELAB }, RES = { .lab = RESLAB };
static bool have_core, core_done, res_done;

static void describe(void)
{
	note_space();
	vf_note_options(&O, S.n);
	if (core_done) { vf_note("before assignment: %s, %ld clusters ", vf_ecname(CORE.ec), CORE.K); vf_note_labels("labels", CORE.lab, S.n); }
	if (res_done) { vf_note("result: %s, %ld clusters ", vf_ecname(RES.ec), RES.K); vf_note_labels("labels", RES.lab, S.n); }
}

static bool choose_core_options(const cfg* c)
{
	const int room = PROP == 9 ? S.n + 1 : S.n; /* too large sizes matter for the existence of solutions only */
	int sz_hi = c->sz_hi < room ? c->sz_hi : room;
	if (c->sp.kind == K_LARGE) sz_hi = c->sz_hi;
	if (sz_hi < c->sz_lo) return false;
	O = scc_get_default_options();
	if (c->sz_lo == 0) {
		const int some[] = { 5, 7, 11, 16, 25, S.n / 2, S.n - 1, S.n };
		O.size_constraint = (uint32_t) some[vf_choose(8)];
	} else O.size_constraint = (uint32_t) vf_range(c->sz_lo, sz_hi);
	int nm = 0, ms[6];
	for (int m = 0; m < 6; ++m) if (c->methods & (1u << m)) ms[nm++] = m;
	O.seed_method = (scc_SeedMethod) ms[vf_choose((unsigned) nm)];
	if (O.seed_method == SCC_SM_BATCHES) {
		static const uint32_t bs[] = { 0, 1, 2, 3 };
		O.batch_size = bs[vf_choose(4)];
	}
	/* a radius that is not asked for must not be used: leave one that would matter */
	O.seed_radius = SCC_RM_NO_RADIUS;
	O.seed_supplied_radius = O.primary_supplied_radius = O.secondary_supplied_radius = 0.125;
	if (c->srad) {
		const unsigned r = vf_choose((unsigned) nrad + (c->srad == 1));
		if (r < (unsigned) nrad) { O.seed_radius = SCC_RM_USE_SUPPLIED; O.seed_supplied_radius = radlist[r]; }
	}
	memset(PFLAG, 1, (size_t) S.n);
	if (c->prim) {
		unsigned full = (1u << S.n) - 1, set;
		if (c->sp.kind == K_LARGE) {
			const unsigned w = vf_choose(3);
			if (w) {
				size_t k = 0;
				for (int i = 0; i < S.n; ++i) { PFLAG[i] = (w == 1) ? (i % 3 != 0) : (i < S.n / 2); if (PFLAG[i]) PRIM[k++] = (scc_PointIndex) i; }
				O.primary_data_points = PRIM; O.len_primary_data_points = k;
			}
		} else {
			set = c->prim == 3 ? 1 + vf_choose(full - 1) : vf_choose(c->prim == 2 ? full + 1 : full);
			if (set) {
				size_t k = 0;
				for (int i = 0; i < S.n; ++i) { PFLAG[i] = (set >> i) & 1; if (PFLAG[i]) PRIM[k++] = (scc_PointIndex) i; }
				O.primary_data_points = PRIM; O.len_primary_data_points = k;
			}
		}
	}
	if (c->types == 100 && O.seed_method != SCC_SM_BATCHES) {
		static const struct { int T; uint32_t tc[6]; } some[] = { { 4, { 1, 1, 1, 1 } }, { 5, { 1, 0, 2, 0, 1 } }, { 3, { 3, 0, 4 } }, { 300, { 0 } }, { 2, { 5, 0 } }, { 2, { 1, 1 } }, { 6, { 1, 1, 1, 1, 1, 1 } }, { 7, { 0, 0, 2, 0, 0, 0 } } };
		const unsigned w = vf_choose(8);
		const int T = some[w].T;
		memset(TC, 0, sizeof TC);
		for (int t = 0; t < 6; ++t) TC[t] = some[w].tc[t];
		if (w == 3) { TC[0] = TC[255] = TC[256] = 1; TC[299] = 2; }
		for (int i = 0; i < S.n; ++i) switch (w) {
			case 3: TL[i] = (scc_TypeLabel) (i % 5 == 0 ? 0 : i % 5 == 1 ? 255 : i % 5 == 2 ? 256 : i % 5 == 3 ? 299 : i); break;
			case 4: TL[i] = (scc_TypeLabel) (i % 6 != 0); break;    /* five points of the first type among thirty */
			case 5: TL[i] = (scc_TypeLabel) (i >= S.n - 2); break;  /* two of the second type */
			default: TL[i] = (scc_TypeLabel) (i * 7 % T); break;
		}
		uint32_t sum = 0;
		for (int t = 0; t < T; ++t) sum += TC[t];
		static const uint32_t extra[] = { 0, 1, 3 };
		O.size_constraint = sum + extra[vf_choose(3)];
		O.num_types = (uint32_t) T; O.type_constraints = TC; O.type_labels = TL; O.len_type_labels = (size_t) S.n;
		for (int i = 0; i < S.n; ++i) TI[i] = (int) TL[i];
	} else if (c->types && O.seed_method != SCC_SM_BATCHES) {
		const int T = vf_range(2, c->types);
		O.num_types = (uint32_t) T;
		uint32_t sum = 0;
		for (int t = 0; t < T; ++t) { TC[t] = vf_choose(3); sum += TC[t]; }
		if (sum > O.size_constraint) return false;
		O.type_constraints = TC;
		if (c->sp.kind == K_LARGE) for (int i = 0; i < S.n; ++i) TL[i] = (scc_TypeLabel) (i % 5 % T);
		else for (int i = 0; i < S.n; ++i) TL[i] = (scc_TypeLabel) vf_choose((unsigned) T);
		O.type_labels = TL; O.len_type_labels = (size_t) S.n;
		for (int i = 0; i < S.n; ++i) TI[i] = (int) TL[i];
	}
	return true;
}

static void choose_radius(const cfg* c, scc_RadiusMethod* m, double* sup)
{
	unsigned r;
	switch (c->rad) {
	case 0: *m = SCC_RM_NO_RADIUS; break;
	case 2: *m = vf_choose(2) ? SCC_RM_USE_SEED_RADIUS : SCC_RM_NO_RADIUS; break;
	case 3: *m = SCC_RM_USE_ESTIMATED; break;
	default:
		r = vf_choose(3 + (unsigned) nrad);
		if (r == 0) *m = SCC_RM_NO_RADIUS;
		else if (r == 1) *m = SCC_RM_USE_SEED_RADIUS;
		else if (r == 2) *m = SCC_RM_USE_ESTIMATED;
		else { *m = SCC_RM_USE_SUPPLIED; *sup = radlist[r - 3]; }
	}
}

static bool choose_assignment(const cfg* c)
{
	static const int sel[5][2] = { { 1, 0 }, { 1, 2 }, { 2, 0 }, { 3, 3 }, { 0, 2 } };
	O.primary_radius = O.secondary_radius = SCC_RM_NO_RADIUS;
	O.primary_unassigned_method = O.secondary_unassigned_method = SCC_UM_IGNORE;
	if (O.seed_method == SCC_SM_BATCHES) {
		O.primary_radius = SCC_RM_USE_SEED_RADIUS;
		if (c->um == 0) return true;
		if (c->um == 2) { O.primary_unassigned_method = SCC_UM_ANY_NEIGHBOR; return true; }
		O.primary_unassigned_method = vf_choose(2) ? SCC_UM_ANY_NEIGHBOR : SCC_UM_IGNORE;
		return true;
	}
	static const scc_UnassignedMethod um[] = { SCC_UM_IGNORE, SCC_UM_ANY_NEIGHBOR, SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED };
	unsigned a = 0, b = 0;
	if (c->um == 4) { const unsigned s = vf_choose(5); a = (unsigned) sel[s][0]; b = (unsigned) sel[s][1]; }
	else if (c->um) {
		a = vf_choose(4);
		if (c->um != 3) { b = vf_choose(3); if (b) ++b; }
		if (c->um == 2 && !a && !b) return false;
	}
	O.primary_unassigned_method = um[a];
	O.secondary_unassigned_method = um[b];
	if (c->rad == 4) {
		choose_radius(c, &O.primary_radius, &O.primary_supplied_radius);
		O.secondary_radius = O.primary_radius; O.secondary_supplied_radius = O.primary_supplied_radius;
	} else {
		if (a) choose_radius(c, &O.primary_radius, &O.primary_supplied_radius);
		if (b) choose_radius(c, &O.secondary_radius, &O.secondary_supplied_radius);
	}
	return true;
}

static uint64_t space_hash;

static uint64_t options_hash(void)
{
	uint64_t h = vf_mix(O.size_constraint, (uint64_t) O.seed_method * 1000u + (uint64_t) O.primary_unassigned_method * 100u + (uint64_t) O.secondary_unassigned_method * 10u + O.batch_size);
	h = vf_mix(h, (uint64_t) O.seed_radius * 100u + (uint64_t) O.primary_radius * 10u + (uint64_t) O.secondary_radius);
	if (O.seed_radius == SCC_RM_USE_SUPPLIED) h = vf_mix(h, bits(O.seed_supplied_radius));
	if (O.primary_radius == SCC_RM_USE_SUPPLIED) h = vf_mix(h, bits(O.primary_supplied_radius));
	if (O.secondary_radius == SCC_RM_USE_SUPPLIED) h = vf_mix(h, bits(O.secondary_supplied_radius));
	if (O.primary_data_points) for (int i = 0; i < S.n; ++i) h = vf_mix(h, (uint64_t) PFLAG[i]);
	if (O.num_types >= 2) {
		for (uint32_t t = 0; t < O.num_types; ++t) h = vf_mix(h, TC[t]);
		for (int i = 0; i < S.n; ++i) h = vf_mix(h, (uint64_t) TI[i]);
	}
	return h;
}

static void explore(const cfg* c, int flags)
{
	core_done = res_done = false;
	vf_set_describe(describe);
	if (!choose_space(&c->sp)) return;
	const int p0 = vf_pos();
	if (c->sp.kind != K_LARGE && !vf_shard()) return;
	if (vf_fresh(p0)) {
		setup_space();
		space_hash = hash_space();
	}
	if (!choose_core_options(c)) return;
	const int p1 = vf_pos();
	if (c->sp.kind == K_LARGE) {
		if (!vf_shard()) return;
		/* the shards see every prefix, so the space may not have been built by this one */
		if (vf_fresh(p1)) { setup_space(); space_hash = hash_space(); }
	}
	vf_problem p = { &S, &O, PFLAG, O.num_types >= 2 ? TI : NULL };
	if (vf_fresh(p1)) {
		OC = O;
		OC.primary_radius = OC.seed_method == SCC_SM_BATCHES ? SCC_RM_USE_SEED_RADIUS : SCC_RM_NO_RADIUS;
		OC.secondary_radius = SCC_RM_NO_RADIUS;
		OC.primary_unassigned_method = OC.secondary_unassigned_method = SCC_UM_IGNORE;
		vf_run_sc(dataset(), &S, &OC, &CORE);
		have_core = true;
		core_done = true;
		const unsigned exp = vf_expected(&p);
		if (!(exp & (1u << CORE.ec))) {
			if ((flags & OR_FEASIBLE) || (CORE.ec != SCC_ER_OK && CORE.ec != SCC_ER_NO_SOLUTION))
				vf_fail("%s, but the problem %s", vf_ecname(CORE.ec), (exp & (1u << SCC_ER_OK)) ? "has a solution" : "has no solution");
		}
	}
	core_done = true;
	if (!choose_assignment(c)) return;
	vf_run_sc(dataset(), &S, &O, &RES);
	res_done = true;
	const uint64_t rh = vf_hash_result(&RES);
	vf_outcome(rh);
	vf_state(vf_mix(vf_mix(space_hash, rh), options_hash()));
	if (CORE.ec != SCC_ER_OK) {
		if (RES.ec != CORE.ec) vf_fail("%s, but %s without assignment of unassigned points", vf_ecname(RES.ec), vf_ecname(CORE.ec));
		if (flags & OR_FEASIBLE) vf_validated();
		return;
	}
	vf_judge(&p, &CORE, &RES, flags);
	if (vf_want_sample()) vf_sample("explored");
}

#if PROP == 21 || PROP == 22
/* ---- the same call again: after other calls, with other memory contents, from read-only input ---- */
#include <sys/mman.h>
static int LAB2[BIGN];
static vf_result R2 = { .lab = LAB2 };
static const char* which;

static void describe2(void)
{
	describe();
	if (which) vf_note("%s: %s, %ld clusters ", which, vf_ecname(R2.ec), R2.K);
	if (which) vf_note_labels("labels", R2.lab, S.n);
}

typedef struct { scc_ClusterOptions o; uint32_t tc[MAXT]; scc_PointIndex prim[BIGN]; scc_TypeLabel tl[BIGN]; } inputs;
static inputs* RO;
static double* ROXY;
static scc_DataSet* RODS;

static void* pages(size_t n)
{
	void* p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) vf_error("mmap");
	return p;
}

static void freeze_space(void)
{
	if (on_backend) return;
	if (!ROXY) ROXY = pages(sizeof XY);
	else if (mprotect(ROXY, sizeof XY, PROT_READ | PROT_WRITE)) vf_error("mprotect");
	memcpy(ROXY, XY, sizeof(double) * (size_t) (S.n * S.dim));
	if (mprotect(ROXY, sizeof XY, PROT_READ)) vf_error("mprotect");
	if (RODS) scc_free_data_set(&RODS);
	if (scc_init_data_set((uint64_t) S.n, (uint32_t) S.dim, (size_t) (S.n * S.dim), ROXY, &RODS) != SCC_ER_OK) vf_fail("could not make a data set");
}

static const scc_ClusterOptions* freeze_options(void)
{
	if (!RO) RO = pages(sizeof *RO);
	else if (mprotect(RO, sizeof *RO, PROT_READ | PROT_WRITE)) vf_error("mprotect");
	RO->o = O;
	memcpy(RO->tc, TC, sizeof RO->tc);
	if (O.primary_data_points) { memcpy(RO->prim, PRIM, sizeof *PRIM * O.len_primary_data_points); RO->o.primary_data_points = RO->prim; }
	if (O.type_labels) { memcpy(RO->tl, TL, sizeof *TL * (size_t) S.n); RO->o.type_labels = RO->tl; RO->o.type_constraints = RO->tc; }
	if (mprotect(RO, sizeof *RO, PROT_READ)) vf_error("mprotect");
	return &RO->o;
}

/* other uses of the library in between */
static void dirty(void)
{
	static double xy[12] = { 5, 1, 9, 2, 8, 8, 3, 4, 7, 7, 0, 6 };
	static scc_PointIndex pp[3] = { 1, 2, 5 };
	static uint32_t tc[3] = { 1, 0, 1 };
	static scc_TypeLabel tl[12] = { 0, 1, 2, 2, 1, 0, 0, 1, 2, 0, 1, 2 };
	if (on_backend) vf_backend_uninstall();
	scc_DataSet* d = NULL; scc_Clustering* c = NULL;
	if (scc_init_data_set(12, 1, 12, xy, &d) != SCC_ER_OK) vf_fail("could not make another data set");
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 3; o.seed_method = SCC_SM_EXCLUSION_UPDATING; o.primary_data_points = pp; o.len_primary_data_points = 3;
	o.num_types = 3; o.type_constraints = tc; o.type_labels = tl; o.len_type_labels = 12;
	o.primary_unassigned_method = SCC_UM_CLOSEST_SEED; o.secondary_unassigned_method = SCC_UM_CLOSEST_ASSIGNED; o.primary_radius = SCC_RM_USE_ESTIMATED;
	scc_init_empty_clustering(12, NULL, &c);
	scc_sc_clustering(d, &o, c);
	scc_ClusteringStats st;
	scc_get_clustering_stats(d, c, &st);
	scc_sc_clustering(d, &o, c); /* rejected: not empty */
	scc_hierarchical_clustering(d, 2, true, c);
	scc_free_clustering(&c);
	scc_init_empty_clustering(12, NULL, &c);
	o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 1e-9;
	scc_sc_clustering(d, &o, c); /* no solution */
	scc_free_clustering(&c);
	scc_free_data_set(&d);
	if (on_backend) vf_backend_install();
}

static uint64_t more(const vf_result* r, void* ds, bool types)
{
	/* what the other functions make of the result */
	uint64_t h = 3;
	if (r->ec != SCC_ER_OK) return h;
	/* as it is, and with empty clusters before and after, more than there are points */
	for (int pad = 0; pad < 2; ++pad) {
		static scc_Clabel l[BIGN], l2[BIGN];
		const uint64_t K0 = (uint64_t) (r->K + (pad ? S.n + 2 : 0));
		for (int i = 0; i < S.n; ++i) l[i] = r->lab[i] < 0 ? SCC_CLABEL_NA : (scc_Clabel) (r->lab[i] + pad);
		scc_Clustering* c = NULL;
		if (scc_init_existing_clustering((uint64_t) S.n, K0, l, true, &c) != SCC_ER_OK) vf_fail("could not make a clustering from the result");
		scc_ClusteringStats st;
		memset(&st, 0, sizeof st);
		h = vf_mix(h, (uint64_t) scc_get_clustering_stats(ds, c, &st));
		const uint64_t u[6] = { st.num_data_points, st.num_assigned, st.num_clusters, st.num_populated_clusters, st.min_cluster_size, st.max_cluster_size };
		const double f[8] = { st.avg_cluster_size, st.sum_dists, st.min_dist, st.max_dist, st.avg_min_dist, st.avg_max_dist, st.avg_dist_weighted, st.avg_dist_unweighted };
		for (int i = 0; i < 6; ++i) h = vf_mix(h, u[i]);
		for (int i = 0; i < 8; ++i) { uint64_t b; memcpy(&b, &f[i], 8); h = vf_mix(h, b); }
		bool ok = false;
		h = vf_mix(h, (uint64_t) scc_check_clustering(c, types ? &O : &OC, &ok));
		h = vf_mix(h, ok);
		h = vf_mix(h, (uint64_t) scc_hierarchical_clustering(ds, 2, pad, c));
		uint64_t K = 0;
		scc_get_clustering_info(c, NULL, &K);
		h = vf_mix(h, K);
		if (scc_get_cluster_labels(c, (size_t) S.n, l2) != SCC_ER_OK) vf_fail("no labels after refinement");
		for (int i = 0; i < S.n; ++i) h = vf_mix(h, (uint64_t) (vf_lab(l2[i]) + 2));
		scc_free_clustering(&c);
	}
	vf_transition(); vf_transition();
	return h;
}

static void repeat(const cfg* c)
{
	core_done = res_done = false;
	which = NULL;
	vf_set_describe(describe2);
	if (!choose_space(&c->sp)) return;
	const int p0 = vf_pos();
	if (c->sp.kind != K_LARGE && !vf_shard()) return;
	if (vf_fresh(p0)) { setup_space(); space_hash = hash_space(); freeze_space(); }
	if (!choose_core_options(c)) return;
	if (!choose_assignment(c)) return;
	if (c->sp.kind == K_LARGE) { if (!vf_shard()) return; setup_space(); space_hash = hash_space(); freeze_space(); }
	OC = scc_get_default_options();
	OC.size_constraint = O.size_constraint;
	vf_al.fill = -1;
	vf_run_sc(dataset(), &S, &O, &RES);
	res_done = true;
	const uint64_t rh = vf_hash_result(&RES);
	const uint64_t mh = more(&RES, dataset(), true);
	const uint64_t all = vf_mix(vf_mix(vf_mix(space_hash, rh), options_hash()), mh);
	vf_outcome(rh);
	vf_state(all);
#if PROP == 22
	vf_digest(all);
	vf_validated();
	if (vf_want_sample()) vf_sample("part of the compared digest");
	return;
#endif
	const scc_ClusterOptions* ro = freeze_options();
	void* ds = on_backend ? (void*) &B : (void*) RODS;
	static const struct { const char* name; int fill; bool dirty, ext; } V[] = {
		{ "from read-only input with fresh memory all zero", 0x00, false, false }, { "with fresh memory all ones", 0xff, false, false },
		{ "after other calls with other memory contents", 0x5a, true, false }, { "into the caller's array", 0xa5, false, true },
		{ "with fresh memory of 64-bit ones", 256 + 1, false, false }, { "with fresh memory of 64-bit twos", 256 + 2, false, false },
		{ "with fresh memory of 32-bit ones", 512 + 1, false, false } };
	for (int v = 0; v < (int) (sizeof V / sizeof V[0]); ++v) {
		which = V[v].name;
		vf_al.fill = V[v].fill;
		if (V[v].dirty) dirty();
		if (!V[v].ext) vf_run_sc(ds, &S, ro, &R2);
		else {
			static scc_Clabel arr[BIGN + 1];
			for (int i = 0; i <= S.n; ++i) arr[i] = (scc_Clabel) (i * 7 % 11);
			const scc_Clabel guard = arr[S.n];
			scc_Clustering* cl = NULL;
			if (scc_init_empty_clustering((uint64_t) S.n, arr, &cl) != SCC_ER_OK) vf_fail("could not make a clustering on the caller's array");
			R2.n = S.n; R2.K = 0;
			R2.ec = scc_sc_clustering(ds, ro, cl);
			uint64_t K = 0;
			scc_get_clustering_info(cl, NULL, &K);
			R2.K = (long) K;
			for (int i = 0; i < S.n; ++i) R2.lab[i] = R2.ec == SCC_ER_OK ? vf_lab(arr[i]) : -1;
			if (arr[S.n] != guard) vf_fail("wrote beyond the caller's array");
			scc_free_clustering(&cl);
		}
		if (vf_hash_result(&R2) != rh) vf_fail("the same call gives another result %s", which);
		if (!V[v].ext && more(&R2, ds, true) != mh) vf_fail("statistics, check or refinement of the same result differ %s", which);
		vf_validated();
	}
	vf_al.fill = -1;
	if (vf_want_sample()) vf_sample("eight runs agree");
}
#ifdef LIMITS
/* ---- the same cases when the types can only count to a small limit ---- */
scc_Clabel vf_clabel_max;
uintmax_t vf_arc_max;
static scc_Clabel clabel_real;
static long lim_l, lim_a;

static void describe3(void)
{
	describe();
	if (lim_l) vf_note("with at most %ld clusters: %s, %ld clusters ", lim_l, vf_ecname(R2.ec), R2.K);
	if (lim_a) vf_note("with at most %ld arcs: %s, %ld clusters ", lim_a, vf_ecname(R2.ec), R2.K);
	if (lim_l || lim_a) vf_note_labels("labels", R2.lab, S.n);
}

static void hier(void* ds, const vf_result* from, int b, vf_result* r)
{
	static scc_Clabel l[BIGN], l2[BIGN];
	scc_Clustering* c = NULL;
	const scc_Clabel keep = vf_clabel_max;
	vf_clabel_max = clabel_real;
	if (from) {
		for (int i = 0; i < S.n; ++i) l[i] = from->lab[i] < 0 ? SCC_CLABEL_NA : (scc_Clabel) from->lab[i];
		if (scc_init_existing_clustering((uint64_t) S.n, (uint64_t) from->K, l, true, &c) != SCC_ER_OK) vf_fail("could not make a clustering from the result");
	} else if (scc_init_empty_clustering((uint64_t) S.n, NULL, &c) != SCC_ER_OK) vf_fail("could not make a clustering");
	vf_clabel_max = keep;
	r->n = S.n;
	r->ec = scc_hierarchical_clustering(ds, 2, b, c);
	vf_transition();
	uint64_t K = 0;
	scc_get_clustering_info(c, NULL, &K);
	r->K = (long) K;
	vf_clabel_max = clabel_real;
	if (r->K > 0) {
		if (scc_get_cluster_labels(c, (size_t) S.n, l2) != SCC_ER_OK) vf_fail("no labels after refinement");
		for (int i = 0; i < S.n; ++i) r->lab[i] = vf_lab(l2[i]);
	} else for (int i = 0; i < S.n; ++i) r->lab[i] = -1;
	scc_free_clustering(&c);
	vf_clabel_max = keep;
}

static void limited(const vf_result* whole, const vf_result* unchanged, long limit, long needed)
{
	vf_validated();
	if (limit >= needed) {
		if (vf_hash_result(&R2) != vf_hash_result(whole)) vf_fail("another result although %ld clusters can be counted and %ld are needed", limit, needed);
	} else {
		if (R2.ec != SCC_ER_TOO_LARGE_PROBLEM) vf_fail("%s, %ld clusters although only %ld can be counted and %ld are needed", vf_ecname(R2.ec), R2.K, limit, needed);
		if (unchanged) {
			if (R2.K != unchanged->K || memcmp(R2.lab, unchanged->lab, sizeof(int) * (size_t) S.n)) vf_fail("the existing clustering was changed by a refinement that failed");
		} else if (R2.K) vf_fail("a clustering that failed is not empty");
	}
}

static void repeat_limits(const cfg* c)
{
	core_done = res_done = false;
	lim_l = lim_a = 0;
	vf_arc_max = UINT32_MAX;
	clabel_real = vf_clabel_max = (scc_Clabel) (UINT32_MAX >> 1);
	vf_set_describe(describe3);
	if (!choose_space(&c->sp)) return;
	const int p0 = vf_pos();
	if (c->sp.kind != K_LARGE && !vf_shard()) return;
	if (vf_fresh(p0)) { setup_space(); space_hash = hash_space(); }
	if (!choose_core_options(c)) return;
	if (!choose_assignment(c)) return;
	if (c->sp.kind == K_LARGE) { if (!vf_shard()) return; setup_space(); space_hash = hash_space(); }
	const long live = vf_al.live;
	void* ds = dataset();
	vf_run_sc(ds, &S, &O, &RES);
	res_done = true;
	const uint64_t all = vf_mix(vf_mix(space_hash, vf_hash_result(&RES)), options_hash());
	vf_state(all);
	const bool big = S.n > 20;
	const long K = RES.ec == SCC_ER_OK ? RES.K : 0;
	for (long l = 1; l <= K + 1; l = (big && l > 3 && l < K - 2) ? K - 2 : l + 1) {
		vf_clabel_max = (scc_Clabel) (lim_l = l);
		vf_run_sc(ds, &S, &O, &R2);
		vf_state(vf_mix(all, (uint64_t) l));
		if (K) limited(&RES, NULL, l, K);
	}
	lim_l = 0;
	vf_clabel_max = clabel_real;
	/* arcs: the result is the same or the problem is said to be too large, and room never hurts */
	bool fits = false;
	const long amax = (long) S.n * S.n * 4 + 4;
	for (long a = 0; a <= amax; a = big ? (a < 4 ? a + 1 : a * 2) : a + 1) {
		vf_arc_max = (uintmax_t) (lim_a = a);
		vf_run_sc(ds, &S, &O, &R2);
		vf_validated();
		if (R2.ec == SCC_ER_TOO_LARGE_PROBLEM && RES.ec != SCC_ER_TOO_LARGE_PROBLEM) {
			if (fits) vf_fail("too large with %ld arcs but not with fewer", a);
			/* a clustering needs arcs for its seeds' neighbors, the searches for at most everything */
			if (a > 3L * S.n * (long) O.size_constraint + (long) S.n * S.n) vf_fail("too large although %ld arcs can be counted", a);
		} else {
			if (vf_hash_result(&R2) != vf_hash_result(&RES)) vf_fail("another result when at most %ld arcs can be counted", a);
			fits = true;
		}
		vf_state(vf_mix(all, 1000u + (uint64_t) R2.ec));
		if (fits && !big) break; /* room never hurts below, checked at the next sizes */
	}
	lim_a = 0;
	vf_arc_max = UINT32_MAX;
	/* refinement into clusters */
	static int LH[BIGN];
	vf_result HR = { .lab = LH };
	for (int e = 0; e < 2; ++e) for (int b = 0; b < 2; ++b) {
		const vf_result* from = (e && K) ? &RES : NULL;
		if (e && !K) continue;
		hier(ds, from, b, &HR);
		if (HR.ec != SCC_ER_OK) vf_fail("refinement fails: %s", vf_ecname(HR.ec));
		for (long l = from ? K : 1; l <= HR.K + 1; l = (big && l > 3 && l < HR.K - 2) ? HR.K - 2 : l + 1) {
			vf_clabel_max = (scc_Clabel) (lim_l = l);
			hier(ds, from, b, &R2);
			vf_state(vf_mix(vf_mix(all, (uint64_t) (l + 100 * b + 1000 * e)), vf_hash_result(&R2)));
			limited(&HR, from, l, HR.K);
		}
		lim_l = 0;
		vf_clabel_max = clabel_real;
	}
	if (vf_al.live != live) vf_fail("%ld blocks of memory were not given back", vf_al.live - live);
	if (vf_want_sample()) vf_sample("limits honored");
}
#define SC(name, flags, ...) static void name(void) { static const cfg c = { __VA_ARGS__ }; repeat_limits(&c); }
#else
#define SC(name, flags, ...) static void name(void) { static const cfg c = { __VA_ARGS__ }; repeat(&c); }
#endif
#else
#define SC(name, flags, ...) static void name(void) { static const cfg c = { __VA_ARGS__ }; explore(&c, flags); }
#endif

/*                          kind      n     lv tb  size  methods      srad prim types um rad */
#if PROP == 1
#define F (OR_SIZE)
SC(s1, F, { K_WEAK,   3, 4, 6, 3 }, 2, 4, ALL_METHODS, 0, 0, 0, 1, 0)
SC(s2, F, { K_LEVELS, 3, 5, 3, 1 }, 2, 5, ALL_METHODS, 0, 0, 0, 4, 0)
SC(s3, F, { K_LEVELS, 3, 4, 4, 3 }, 2, 3, ALL_METHODS, 1, 2, 0, 4, 2)
SC(s4, F, { K_GRID1,  5, 7, 3, 1 }, 2, 4, ALL_METHODS, 1, 0, 0, 4, 2)
SC(s5, F, { K_LEVELS, 4, 4, 2, 3 }, 2, 4, NNG_METHODS, 0, 0, 2, 4, 0)
SC(s6, F, { K_LARGE,  0, 0, 0, 1 }, 2, 4, ALL_METHODS, 1, 1, 0, 4, 2)
SC(s7, F, { K_LEVELS, 6, 6, 2, 1 }, 2, 4, ALL_METHODS, 0, 0, 0, 4, 0)
SC(w1, F, { K_LARGE,  2, 0, 4, 1 }, 0, 0, ALL_METHODS, 1, 1, 0, 4, 2)
SC(w2, F, { K_LARGE,  2, 0, 4, 1 }, 2, 2, NNG_METHODS, 1, 1, 100, 4, 0)
SC(t1, F, { K_GRID2,  5, 5, 3, 1 }, 2, 3, ALL_METHODS, 1, 2, 0, 1, 4)
SC(t2, F, { K_GRID1,  8, 8, 3, 1 }, 2, 5, ALL_METHODS, 1, 0, 0, 1, 2)
SC(t3, F, { K_LEVELS, 4, 4, 3, 3 }, 2, 4, NNG_METHODS, 0, 1, 2, 4, 0)
SC(t4, F, { K_LEVELS, 6, 6, 2, 3 }, 2, 6, ALL_METHODS, 0, 0, 0, 1, 0)
SC(z1, F, { K_LEVELS, 3, 4, 3, 1, 1 }, 2, 3, ALL_METHODS, 1, 1, 0, 4, 2)
SC(z2, F, { K_GRID1,  4, 5, 3, 1, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 2)
const vf_scenario vf_scenarios[] = { { "weak-orders", s1, 0 }, { "levels", s2, 0 }, { "identical-points-primary-radius", s3, 0 }, { "grid", s4, 0 }, { "types", s5, 0 }, { "large", s6, 0 }, { "levels6", s7, 0 }, { "large-sizes", w1, 0 }, { "many-types", w2, 0 }, { "grid2d", t1, 1 }, { "grid8", t2, 1 }, { "types-primary", t3, 1 }, { "levels6-all", t4, 1 }, { "scaled", z1, 0 }, { "scaled-grid", z2, 0 }, { 0 } };
#elif PROP == 2
#define F (OR_SIZE | OR_TYPE | OR_CORE)
SC(s1, F, { K_LEVELS, 3, 4, 3, 1 }, 2, 4, NNG_METHODS, 0, 0, 2, 4, 0)
SC(s2, F, { K_LEVELS, 3, 4, 4, 3 }, 2, 3, NNG_METHODS, 1, 0, 2, 0, 0)
SC(s3, F, { K_GRID1,  5, 5, 3, 1 }, 2, 5, NNG_METHODS, 1, 0, 2, 0, 0)
SC(s4, F, { K_LEVELS, 4, 4, 2, 1 }, 2, 4, NNG_METHODS, 1, 2, 2, 0, 0)
SC(s5, F, { K_LARGE,  0, 0, 0, 1 }, 2, 4, NNG_METHODS, 1, 1, 2, 0, 0)
SC(s6, F, { K_LEVELS, 5, 5, 2, 1 }, 2, 5, NNG_METHODS, 0, 0, 2, 0, 0)
SC(s7, F, { K_LEVELS, 3, 4, 2, 1 }, 2, 4, NNG_METHODS, 0, 0, 3, 3, 0)
SC(w2, F, { K_LARGE,  2, 0, 4, 1 }, 2, 2, NNG_METHODS, 1, 1, 100, 4, 0)
SC(t1, F, { K_GRID1,  6, 6, 3, 1 }, 2, 6, NNG_METHODS, 1, 0, 2, 4, 2)
SC(t2, F, { K_LEVELS, 5, 5, 2, 3 }, 2, 5, NNG_METHODS, 1, 0, 3, 4, 2)
SC(t3, F, { K_LEVELS, 4, 4, 4, 3 }, 2, 4, NNG_METHODS, 1, 0, 2, 4, 2)
SC(t4, F, { K_LEVELS, 4, 4, 2, 3 }, 2, 4, NNG_METHODS, 1, 2, 2, 4, 2)
SC(t5, F, { K_LARGE,  0, 0, 0, 1 }, 2, 5, NNG_METHODS, 1, 1, 3, 4, 2)
SC(z1, F, { K_LEVELS, 3, 4, 2, 1, 1 }, 2, 3, NNG_METHODS, 1, 0, 2, 0, 0)
SC(z2, F, { K_GRID1,  4, 4, 3, 1, 1 }, 2, 3, NNG_METHODS, 1, 0, 2, 0, 0)
const vf_scenario vf_scenarios[] = { { "levels", s1, 0 }, { "identical-points-radius", s2, 0 }, { "grid", s3, 0 }, { "primary", s4, 0 }, { "large", s5, 0 }, { "levels5", s6, 0 }, { "three-types", s7, 0 }, { "many-types", w2, 0 }, { "grid6", t1, 1 }, { "levels5-all", t2, 1 }, { "identical-points-all", t3, 1 }, { "primary-all", t4, 1 }, { "large-all", t5, 1 }, { "scaled", z1, 0 }, { "scaled-grid", z2, 0 }, { 0 } };
#elif PROP == 3
#define F (OR_COMPLETE)
SC(s1, F, { K_LEVELS, 3, 4, 3, 1 }, 2, 3, ALL_METHODS, 1, 2, 0, 1, 0)
SC(s2, F, { K_LEVELS, 5, 5, 3, 1 }, 2, 3, ALL_METHODS, 0, 0, 0, 1, 0)
SC(s3, F, { K_LEVELS, 3, 4, 4, 3 }, 2, 3, ALL_METHODS, 1, 0, 0, 1, 1)
SC(s4, F, { K_GRID1,  6, 6, 3, 1 }, 2, 4, ALL_METHODS, 1, 0, 0, 1, 2)
SC(s5, F, { K_LEVELS, 4, 4, 2, 2 }, 2, 3, NNG_METHODS, 0, 0, 2, 1, 0)
SC(s6, F, { K_LARGE,  0, 0, 0, 1 }, 2, 3, ALL_METHODS, 1, 1, 0, 4, 0)
SC(w1, F, { K_LARGE,  2, 0, 4, 1 }, 0, 0, ALL_METHODS, 1, 1, 0, 1, 2)
SC(w2, F, { K_LARGE,  2, 0, 4, 1 }, 2, 2, NNG_METHODS, 1, 1, 100, 1, 0)
SC(t1, F, { K_GRID2,  5, 5, 3, 1 }, 2, 3, ALL_METHODS, 1, 2, 0, 1, 4)
SC(t2, F, { K_LARGE,  0, 0, 0, 1 }, 2, 4, ALL_METHODS, 1, 1, 2, 1, 0)
SC(t3, F, { K_LEVELS, 3, 4, 3, 3 }, 2, 4, ALL_METHODS, 1, 2, 0, 1, 0)
SC(t4, F, { K_LEVELS, 4, 4, 3, 3 }, 2, 4, NNG_METHODS, 0, 0, 2, 1, 0)
SC(z1, F, { K_LEVELS, 3, 4, 3, 1, 1 }, 2, 3, ALL_METHODS, 1, 1, 0, 4, 2)
SC(z2, F, { K_GRID1,  4, 5, 3, 1, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 1, 2)
SC(g1, F, { K_GRID1,  5, 5, 3, 1 }, 2, 2, NNG_METHODS, 0, 0, 2, 4, 2)
SC(g2, F, { K_GRID1,  5, 5, 2, 1 }, 2, 2, SM(LEXICAL) | SM(EXCLUSION_UPDATING), 0, 3, 2, 4, 2)
SC(g3, F, { K_GRID1,  6, 6, 3, 1 }, 2, 3, NNG_METHODS, 0, 0, 2, 4, 2)
const vf_scenario vf_scenarios[] = { { "levels-primary-radius", s1, 0 }, { "levels5", s2, 0 }, { "identical-points-radii", s3, 0 }, { "grid", s4, 0 }, { "types", s5, 0 }, { "large", s6, 0 }, { "large-sizes", w1, 0 }, { "many-types", w2, 0 }, { "grid2d", t1, 1 }, { "large-all", t2, 1 }, { "levels-primary-radius-ties", t3, 1 }, { "types-ties", t4, 1 }, { "scaled", z1, 0 }, { "scaled-grid", z2, 0 }, { "types-grid", g1, 0 }, { "types-primary-grid", g2, 0 }, { "types-grid6", g3, 1 }, { 0 } };
#elif PROP == 4
#define F (OR_RADIUS)
SC(s1, F, { K_LEVELS, 3, 4, 3, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 2, 1)
SC(s2, F, { K_GRID1,  5, 5, 4, 1 }, 2, 3, ALL_METHODS, 2, 0, 0, 2, 4)
SC(s3, F, { K_LEVELS, 4, 4, 3, 1 }, 2, 2, ALL_METHODS, 2, 2, 0, 4, 4)
SC(s4, F, { K_LEVELS, 4, 4, 2, 1 }, 2, 3, NNG_METHODS, 1, 0, 2, 4, 4)
SC(s5, F, { K_LARGE,  0, 0, 0, 1 }, 2, 4, ALL_METHODS, 1, 1, 0, 4, 4)
SC(s6, F, { K_LEVELS, 5, 5, 2, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 1)
SC(w1, F, { K_LARGE,  2, 0, 4, 1 }, 0, 0, ALL_METHODS, 1, 1, 0, 4, 4)
SC(w2, F, { K_LARGE,  2, 0, 4, 1 }, 2, 2, NNG_METHODS, 1, 1, 100, 4, 4)
SC(t1, F, { K_LEVELS, 5, 5, 3, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 2, 4)
SC(t2, F, { K_GRID2,  5, 5, 3, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 1)
SC(t3, F, { K_LEVELS, 4, 4, 3, 2 }, 2, 3, NNG_METHODS, 1, 0, 2, 4, 4)
SC(t4, F, { K_LEVELS, 3, 4, 3, 3 }, 2, 3, ALL_METHODS, 1, 0, 0, 2, 1)
SC(t5, F, { K_LEVELS, 4, 4, 3, 1 }, 2, 4, ALL_METHODS, 2, 2, 0, 4, 4)
SC(z1, F, { K_LEVELS, 3, 4, 3, 1, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 4)
SC(z2, F, { K_GRID1,  4, 5, 3, 1, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 2, 4)
SC(g1, F, { K_GRID1,  5, 5, 3, 1 }, 2, 2, NNG_METHODS, 0, 0, 2, 4, 2)
SC(g2, F, { K_GRID1,  5, 5, 2, 1 }, 2, 2, SM(LEXICAL) | SM(EXCLUSION_UPDATING), 0, 3, 2, 4, 2)
SC(g3, F, { K_GRID1,  6, 6, 3, 1 }, 2, 3, NNG_METHODS, 0, 0, 2, 4, 2)
const vf_scenario vf_scenarios[] = { { "levels", s1, 0 }, { "grid", s2, 0 }, { "primary", s3, 0 }, { "types", s4, 0 }, { "large", s5, 0 }, { "levels5", s6, 0 }, { "large-sizes", w1, 0 }, { "many-types", w2, 0 }, { "levels5-all", t1, 1 }, { "grid2d", t2, 1 }, { "types-all", t3, 1 }, { "levels-ties", t4, 1 }, { "primary-sizes", t5, 1 }, { "scaled", z1, 0 }, { "scaled-grid", z2, 0 }, { "types-grid", g1, 0 }, { "types-primary-grid", g2, 0 }, { "types-grid6", g3, 1 }, { 0 } };
#elif PROP == 6
#define F (OR_ASSIGN | OR_CORE)
SC(s1, F, { K_WEAK,   3, 4, 6, 2 }, 2, 3, ALL_METHODS, 0, 0, 0, 2, 0)
SC(s2, F, { K_LEVELS, 3, 4, 3, 3 }, 2, 3, ALL_METHODS, 1, 0, 0, 2, 4)
SC(s3, F, { K_LEVELS, 5, 5, 3, 1 }, 2, 3, ALL_METHODS, 0, 0, 0, 4, 3)
SC(s4, F, { K_LEVELS, 4, 4, 3, 1 }, 2, 2, ALL_METHODS, 1, 1, 0, 2, 2)
SC(s5, F, { K_GRID1,  6, 6, 3, 1 }, 2, 4, ALL_METHODS, 1, 0, 0, 2, 4)
SC(s6, F, { K_LEVELS, 4, 4, 2, 1 }, 2, 3, NNG_METHODS, 1, 0, 2, 4, 4)
SC(t3, F, { K_LEVELS, 4, 4, 3, 2 }, 2, 3, NNG_METHODS, 1, 0, 2, 4, 4)
SC(t4, F, { K_LEVELS, 4, 4, 3, 1 }, 2, 3, ALL_METHODS, 1, 2, 0, 2, 2)
SC(s7, F, { K_LARGE,  0, 0, 0, 1 }, 2, 3, ALL_METHODS, 1, 1, 0, 1, 2)
SC(s8, F, { K_LEVELS, 3, 4, 4, 3 }, 2, 3, ALL_METHODS, 1, 0, 0, 2, 1)
SC(w1, F, { K_LARGE,  2, 0, 4, 1 }, 0, 0, ALL_METHODS, 1, 1, 0, 1, 4)
SC(w2, F, { K_LARGE,  2, 0, 4, 1 }, 2, 2, NNG_METHODS, 1, 1, 100, 4, 4)
SC(t1, F, { K_LEVELS, 6, 6, 2, 2 }, 2, 4, ALL_METHODS, 1, 0, 0, 2, 4)
SC(t2, F, { K_GRID2,  5, 5, 3, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 2, 4)
SC(z1, F, { K_LEVELS, 3, 4, 3, 1, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 4)
SC(z2, F, { K_GRID1,  4, 5, 3, 1, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 2, 4)
SC(z3, F, { K_ORDER,  5, 6, 2, 1 }, 2, 3, ALL_METHODS, 0, 0, 0, 4, 3)
SC(g1, F, { K_GRID1,  5, 5, 3, 1 }, 2, 2, NNG_METHODS, 0, 0, 2, 4, 2)
SC(g2, F, { K_GRID1,  5, 5, 2, 1 }, 2, 2, SM(LEXICAL) | SM(EXCLUSION_UPDATING), 0, 3, 2, 4, 2)
SC(g3, F, { K_GRID1,  6, 6, 3, 1 }, 2, 3, NNG_METHODS, 0, 0, 2, 4, 2)
const vf_scenario vf_scenarios[] = { { "weak-orders", s1, 0 }, { "levels-radii", s2, 0 }, { "levels5-estimated", s3, 0 }, { "primary", s4, 0 }, { "grid", s5, 0 }, { "types", s6, 0 }, { "large", s7, 0 }, { "identical-points", s8, 0 }, { "large-sizes", w1, 0 }, { "many-types", w2, 0 }, { "types-all", t3, 1 }, { "primary-sizes", t4, 1 }, { "levels6", t1, 1 }, { "grid2d", t2, 1 }, { "scaled", z1, 0 }, { "scaled-grid", z2, 0 }, { "orders", z3, 0 }, { "types-grid", g1, 0 }, { "types-primary-grid", g2, 0 }, { "types-grid6", g3, 1 }, { 0 } };
#elif PROP == 7
#define F (OR_QUALITY | OR_CORE)
SC(s1, F, { K_WEAK,   3, 4, 6, 3 }, 2, 4, ALL_METHODS, 0, 0, 0, 2, 0)
SC(s2, F, { K_LEVELS, 5, 5, 3, 3 }, 2, 3, ALL_METHODS, 0, 0, 0, 4, 0)
SC(s3, F, { K_GRID1,  6, 6, 4, 1 }, 2, 3, ALL_METHODS, 0, 0, 0, 4, 0)
SC(s4, F, { K_LEVELS, 3, 4, 4, 3 }, 2, 4, ALL_METHODS, 0, 0, 0, 2, 0)
SC(s5, F, { K_LARGE,  0, 0, 0, 1 }, 2, 6, ALL_METHODS, 0, 0, 0, 2, 0)
SC(s6, F, { K_GRID2,  4, 4, 4, 1 }, 2, 2, ALL_METHODS, 0, 0, 0, 4, 0)
SC(w1, F, { K_LARGE,  2, 0, 0, 1 }, 0, 0, ALL_METHODS, 0, 0, 0, 2, 0)
SC(t1, F, { K_GRID1,  7, 7, 4, 1 }, 2, 3, ALL_METHODS, 0, 0, 0, 4, 0)
SC(t2, F, { K_LEVELS, 6, 6, 2, 3 }, 2, 3, ALL_METHODS, 0, 0, 0, 2, 0)
SC(t3, F, { K_GRID2,  5, 5, 3, 1 }, 2, 2, ALL_METHODS, 0, 0, 0, 2, 0)
SC(z1, F, { K_LEVELS, 3, 4, 3, 1, 1 }, 2, 3, ALL_METHODS, 0, 0, 0, 2, 0)
SC(z2, F, { K_GRID1,  4, 5, 3, 1, 1 }, 2, 3, ALL_METHODS, 0, 0, 0, 2, 0)
SC(z3, F, { K_ORDER,  4, 6, 2, 2 }, 2, 3, ALL_METHODS, 0, 0, 0, 4, 0)
SC(t4, F, { K_ORDER,  6, 6, 3, 2 }, 2, 3, ALL_METHODS, 0, 0, 0, 2, 0)
const vf_scenario vf_scenarios[] = { { "weak-orders", s1, 0 }, { "levels5", s2, 0 }, { "grid", s3, 0 }, { "identical-points", s4, 0 }, { "large", s5, 0 }, { "grid2d", s6, 0 }, { "large-sizes", w1, 0 }, { "grid7", t1, 1 }, { "levels6", t2, 1 }, { "grid2d5", t3, 1 }, { "scaled", z1, 0 }, { "scaled-grid", z2, 0 }, { "orders", z3, 0 }, { "orders6", t4, 1 }, { 0 } };
#elif PROP == 9
#define F (OR_FEASIBLE | OR_CORE)
SC(s1, F, { K_LEVELS, 2, 4, 3, 1 }, 2, 5, ALL_METHODS, 1, 2, 0, 0, 0)
SC(s2, F, { K_LEVELS, 2, 4, 3, 1 }, 2, 4, NNG_METHODS, 1, 0, 2, 0, 0)
SC(s3, F, { K_LEVELS, 2, 4, 4, 3 }, 2, 4, ALL_METHODS, 1, 0, 0, 2, 3)
SC(s4, F, { K_LEVELS, 3, 4, 2, 1 }, 2, 4, NNG_METHODS, 1, 0, 3, 0, 0)
SC(s5, F, { K_GRID1,  5, 6, 3, 1 }, 2, 6, ALL_METHODS, 1, 0, 0, 0, 0)
SC(s6, F, { K_LARGE,  0, 0, 0, 1 }, 2, 4, ALL_METHODS, 1, 1, 2, 0, 0)
SC(s7, F, { K_LEVELS, 4, 4, 2, 1 }, 2, 4, NNG_METHODS, 2, 3, 2, 0, 0)
SC(w1, F, { K_LARGE,  2, 0, 4, 1 }, 0, 0, ALL_METHODS, 1, 1, 0, 4, 3)
SC(w2, F, { K_LARGE,  2, 0, 4, 1 }, 2, 2, NNG_METHODS, 1, 1, 100, 0, 0)
SC(t3, F, { K_LEVELS, 2, 4, 3, 3 }, 2, 5, ALL_METHODS, 1, 2, 0, 0, 0)
SC(t4, F, { K_LEVELS, 2, 4, 3, 3 }, 2, 4, NNG_METHODS, 1, 0, 2, 0, 0)
SC(t5, F, { K_LARGE,  0, 0, 0, 1 }, 2, 4, ALL_METHODS, 1, 1, 2, 4, 2)
SC(t1, F, { K_LEVELS, 5, 5, 3, 2 }, 2, 5, ALL_METHODS, 1, 2, 0, 0, 0)
SC(t2, F, { K_LEVELS, 5, 5, 2, 2 }, 2, 5, NNG_METHODS, 1, 0, 3, 0, 0)
SC(z1, F, { K_LEVELS, 2, 4, 3, 1, 1 }, 2, 4, ALL_METHODS, 1, 1, 0, 4, 3)
SC(z2, F, { K_GRID1,  4, 4, 3, 1, 1 }, 2, 3, NNG_METHODS, 1, 0, 2, 0, 0)
const vf_scenario vf_scenarios[] = { { "levels-primary-radius", s1, 0 }, { "types-radius", s2, 0 }, { "estimated", s3, 0 }, { "three-types", s4, 0 }, { "grid", s5, 0 }, { "large", s6, 0 }, { "types-primary-radius", s7, 0 }, { "large-sizes", w1, 0 }, { "many-types", w2, 0 }, { "levels-ties", t3, 1 }, { "types-ties", t4, 1 }, { "large-all", t5, 1 }, { "levels5", t1, 1 }, { "types5", t2, 1 }, { "scaled", z1, 0 }, { "scaled-grid", z2, 0 }, { 0 } };
#elif PROP == 21
#define F 0
SC(s1, F, { K_LEVELS, 3, 4, 3, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 2)
SC(s2, F, { K_LEVELS, 4, 4, 2, 1 }, 2, 2, NNG_METHODS, 0, 0, 2, 4, 2)
SC(s3, F, { K_GRID1,  5, 5, 3, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 2)
SC(s4, F, { K_LEVELS, 4, 4, 2, 1 }, 2, 2, ALL_METHODS, 1, 1, 0, 4, 0)
SC(s5, F, { K_LARGE,  0, 0, 0, 1 }, 2, 3, ALL_METHODS, 1, 1, 0, 4, 3)
SC(s6, F, { K_GRID1,  4, 4, 3, 1 }, 2, 2, ALL_METHODS, 2, 0, 2, 4, 0)
SC(s7, F, { K_LEVELS, 3, 3, 2, 1 }, 2, 3, ALL_METHODS, 1, 2, 2, 4, 0)
SC(w1, F, { K_LARGE,  1, 0, 3, 1 }, 0, 0, ALL_METHODS, 1, 1, 0, 4, 3)
SC(w2, F, { K_LARGE,  1, 0, 3, 1 }, 2, 2, NNG_METHODS, 1, 1, 100, 4, 0)
SC(t1, F, { K_LEVELS, 4, 4, 3, 3 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 4)
SC(t2, F, { K_LEVELS, 4, 4, 3, 1 }, 2, 2, NNG_METHODS, 1, 2, 0, 4, 2)
SC(t3, F, { K_LARGE,  0, 0, 0, 1 }, 2, 4, ALL_METHODS, 1, 1, 2, 4, 4)
SC(t4, F, { K_LEVELS, 5, 5, 2, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 2)
const vf_scenario vf_scenarios[] = { { "levels", s1, 0 }, { "types", s2, 0 }, { "grid", s3, 0 }, { "primary", s4, 0 }, { "large", s5, 0 }, { "grid-types", s6, 0 }, { "three-points-all", s7, 0 }, { "large-sizes", w1, 0 }, { "many-types", w2, 0 }, { "ties", t1, 1 }, { "levels-primary", t2, 1 }, { "large-types", t3, 1 }, { "levels5", t4, 1 }, { 0 } };
#elif PROP == 22 && defined LIMITS
#define F 0
SC(s1, F, { K_LEVELS, 3, 4, 3, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 0)
SC(s2, F, { K_GRID1,  6, 6, 3, 1 }, 2, 3, ALL_METHODS, 0, 0, 0, 4, 0)
SC(s3, F, { K_LEVELS, 3, 4, 2, 1 }, 2, 3, NNG_METHODS, 0, 0, 2, 0, 0)
SC(s4, F, { K_LARGE,  0, 0, 0, 1 }, 2, 2, ALL_METHODS, 1, 0, 0, 0, 0)
SC(t1, F, { K_LEVELS, 5, 5, 3, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 0)
SC(t2, F, { K_LARGE,  0, 0, 0, 1 }, 2, 3, ALL_METHODS, 1, 1, 0, 4, 0)
SC(t3, F, { K_GRID1,  7, 8, 3, 1 }, 2, 4, ALL_METHODS, 1, 0, 0, 3, 2)
const vf_scenario vf_scenarios[] = { { "levels", s1, 0 }, { "grid", s2, 0 }, { "types", s3, 0 }, { "large", s4, 0 }, { "levels5", t1, 1 }, { "large-types", t2, 1 }, { "grid8", t3, 1 }, { 0 } };
#elif PROP == 22
#define F 0
SC(s1, F, { K_LEVELS, 3, 4, 4, 2 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 4)
SC(s2, F, { K_LEVELS, 4, 4, 2, 1 }, 2, 3, NNG_METHODS, 1, 0, 2, 4, 0)
SC(s3, F, { K_GRID1,  5, 6, 3, 1 }, 2, 4, ALL_METHODS, 1, 0, 0, 4, 2)
SC(s4, F, { K_LEVELS, 4, 4, 2, 1 }, 2, 3, ALL_METHODS, 1, 2, 0, 4, 2)
SC(s5, F, { K_LARGE,  0, 0, 0, 1 }, 2, 3, ALL_METHODS, 1, 1, 0, 4, 3)
SC(s6, F, { K_GRID2,  4, 4, 3, 1 }, 2, 2, ALL_METHODS, 1, 0, 0, 4, 0)
SC(w1, F, { K_LARGE,  1, 0, 3, 1 }, 0, 0, ALL_METHODS, 1, 1, 0, 4, 3)
SC(w2, F, { K_LARGE,  1, 0, 3, 1 }, 2, 2, NNG_METHODS, 1, 1, 100, 4, 0)
SC(t1, F, { K_LEVELS, 5, 5, 2, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 4)
SC(t2, F, { K_LARGE,  0, 0, 0, 1 }, 2, 4, ALL_METHODS, 1, 1, 2, 4, 2)
SC(z2, F, { K_GRID1,  4, 5, 3, 1, 1 }, 2, 3, ALL_METHODS, 1, 0, 0, 4, 4)
const vf_scenario vf_scenarios[] = { { "levels", s1, 0 }, { "types", s2, 0 }, { "grid", s3, 0 }, { "primary", s4, 0 }, { "large", s5, 0 }, { "grid2d", s6, 0 }, { "large-sizes", w1, 0 }, { "many-types", w2, 0 }, { "levels5", t1, 1 }, { "large-types", t2, 1 }, { "scaled-grid", z2, 0 }, { 0 } };
#endif
