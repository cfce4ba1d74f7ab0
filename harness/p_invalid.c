/* PROP 18: arguments outside the documented domain, every combination of up to a number of deviations,
 * are rejected with the documented class of error and change nothing.
 * PROP 19: what scc_get_latest_error reports over histories of calls. */
#include <math.h>
#include <limits.h>
#include "vf.h"
#include "src/scclust_types.h"

const int vf_watchdog_seconds = 60;

#define N 4
static double XY[N] = { 0.0, 1.0, 3.0, 7.0 };
static vf_space S = { .n = N, .coords = true, .dim = 1, .xy = XY };
static scc_DataSet *DS4, *DS5;
static double XY5[5] = { 0, 1, 2, 3, 4 };

static void setup(void)
{
	if (DS4) return;
	if (scc_init_data_set(N, 1, N, XY, &DS4) != SCC_ER_OK || scc_init_data_set(5, 1, 5, XY5, &DS5) != SCC_ER_OK) vf_fail("could not make a data set");
}

#define BIT(e) (1u << (e))
enum { INV = BIT(SCC_ER_INVALID_INPUT), NOS = BIT(SCC_ER_NO_SOLUTION), TOO = BIT(SCC_ER_TOO_LARGE_PROBLEM), NIM = BIT(SCC_ER_NOT_IMPLEMENTED), MEM = BIT(SCC_ER_NO_MEMORY), FINE = BIT(SCC_ER_OK) };

static char what[400];
static void describe_what(void) { vf_note("%s", what); }

/* distance functions to which no data set is acceptable */
static bool refuse(void* ds) { (void) ds; return false; }
static void refusing(bool on)
{
	if (on ? !scc_set_dist_functions(refuse, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL) : !scc_reset_dist_functions()) vf_fail("could not change the distance functions");
}

static void outcome(scc_ErrorCode ec, unsigned allowed)
{
	vf_transition();
	vf_validated();
	if ((unsigned) ec > 7u || !(allowed >> ec & 1)) {
		char b[160] = "";
		for (int e = 0; e < 8; ++e) if (allowed >> e & 1) { strcat(b, " "); strcat(b, vf_ecname((scc_ErrorCode) e)); }
		vf_fail("returned %s, expected%s", vf_ecname(ec), b);
	}
	vf_outcome(vf_mix(allowed, (uint64_t) ec));
}

#if PROP == 18
/* ------------------------------------------------------------ constructors */

static void s_init_data_set(void)
{
	static double data[64];
	setup();
	vf_set_describe(describe_what);
	const uint64_t PM = (uint64_t) ISCC_POINTINDEX_MAX;
	const uint64_t ns[] = { 0, 1, 2, 5, PM - 1, PM, PM + 1, (uint64_t) UINT32_MAX + 1, (uint64_t) 1 << 62, (uint64_t) 1 << 63, UINT64_MAX - 1, UINT64_MAX };
	const uint32_t ds[] = { 0, 1, 2, 3, 4, 65535, 65536, 0x10000001u, UINT32_MAX };
	const uint64_t n = ns[vf_choose(sizeof ns / sizeof *ns)];
	if (!vf_shard()) return;
	const uint32_t d = ds[vf_choose(sizeof ds / sizeof *ds)];
	const unsigned __int128 need = (unsigned __int128) n * d;
	const size_t lens[] = { 0, 1, (size_t) need - 1, (size_t) need, (size_t) need + 1, SIZE_MAX };
	const size_t len = lens[vf_choose(6)];
	const bool null = vf_choose(2), outnull = vf_choose(2), fail = vf_choose(2);
	sprintf(what, "scc_init_data_set(%ju, %u, %zu, %s, %s)%s", (uintmax_t) n, d, len, null ? "NULL" : "data", outnull ? "NULL" : "&out", fail ? ", allocation fails" : "");
	unsigned a = 0;
	if (outnull) a |= INV;
	if (n == 0) a |= INV;
	if (n > PM || n > SIZE_MAX - 1) a |= TOO;
	if (d == 0) a |= INV;
	if (d > 65535) a |= TOO;
	if ((unsigned __int128) len < need) a |= INV;
	if (null) a |= INV;
	const bool valid = a == 0;
	if (valid) a = fail ? MEM : FINE;
	scc_DataSet* out = (scc_DataSet*) data;
	const long live = vf_al.live;
	vf_alloc_arm(fail, 0, 0);
	const scc_ErrorCode ec = scc_init_data_set(n, d, len, null ? NULL : data, outnull ? NULL : &out);
	vf_alloc_disarm();
	outcome(ec, a);
	if (!outnull && ec != SCC_ER_OK && out != NULL) vf_fail("a data set is left behind");
	if (ec == SCC_ER_OK) {
		if (!scc_is_initialized_data_set(out)) vf_fail("the data set is not initialized");
		scc_free_data_set(&out);
		if (out) vf_fail("not cleared when freed");
	}
	if (vf_al.live != live) vf_fail("memory leaked");
	uint64_t h = vf_mix(n, d); h = vf_mix(h, len); vf_state(vf_mix(h, (uint64_t) (null * 4 + outnull * 2 + fail)));
}

static void s_init_clustering(void)
{
	setup();
	vf_set_describe(describe_what);
	const uint64_t PM = (uint64_t) ISCC_POINTINDEX_MAX, CM = (uint64_t) SCC_CLABEL_MAX;
	const uint64_t ns[] = { 0, 1, 2, 4, PM - 1, PM, PM + 1, (uint64_t) UINT32_MAX + 1, (uint64_t) 1 << 63, UINT64_MAX - 1, UINT64_MAX };
	const uint64_t ks[] = { 0, 1, 2, 5, CM - 1, CM, CM + 1, (uint64_t) UINT32_MAX, (uint64_t) UINT32_MAX + 1, (uint64_t) 1 << 63, UINT64_MAX - 1, UINT64_MAX };
	const uint64_t n = ns[vf_choose(sizeof ns / sizeof *ns)];
	if (!vf_shard()) return;
	const bool existing = vf_choose(2), null = vf_choose(2), outnull = vf_choose(2), fail = vf_choose(2);
	const uint64_t K = existing ? ks[vf_choose(sizeof ks / sizeof *ks)] : 0;
	const bool deep = existing ? vf_choose(2) : false;
	scc_Clabel lab[5] = { 0, 1, 0, 1, 99 }, was[5];
	memcpy(was, lab, sizeof was);
	sprintf(what, "%s clustering, %ju points, %ju clusters, labels %s, %s, out %s%s", existing ? "existing" : "empty", (uintmax_t) n, (uintmax_t) K, null ? "NULL" : "given", deep ? "copied" : "not copied", outnull ? "NULL" : "given", fail ? ", allocations fail" : "");
	unsigned a = 0;
	if (outnull) a |= INV;
	if (n == 0) a |= INV;
	if (n > PM || n > SIZE_MAX - 1) a |= TOO;
	if (existing) {
		if (K == 0) a |= INV;
		if (K > CM) a |= TOO;
		if (null) a |= INV;
	}
	const bool valid = a == 0;
	if (valid && deep && !null && n > 4 && !fail) return; /* would need an array of that length */
	if (valid) a = fail ? MEM : FINE;
	scc_Clustering* out = (scc_Clustering*) lab;
	const long live = vf_al.live;
	vf_alloc_arm(0, 0, fail);
	const scc_ErrorCode ec = existing ? scc_init_existing_clustering(n, K, null ? NULL : lab, deep, outnull ? NULL : &out) : scc_init_empty_clustering(n, null ? NULL : lab, outnull ? NULL : &out);
	vf_alloc_disarm();
	outcome(ec, a);
	if (!outnull && ec != SCC_ER_OK && out != NULL) vf_fail("a clustering is left behind");
	if (ec == SCC_ER_OK) {
		uint64_t n2 = 0, K2 = 1;
		if (!scc_is_initialized_clustering(out) || scc_get_clustering_info(out, &n2, &K2) != SCC_ER_OK || n2 != n || K2 != K) vf_fail("the clustering has %ju points and %ju clusters", (uintmax_t) n2, (uintmax_t) K2);
		scc_free_clustering(&out);
		if (out) vf_fail("not cleared when freed");
	}
	if (vf_al.live != live) vf_fail("memory leaked");
	if (memcmp(lab, was, sizeof lab)) vf_fail("the caller's labels were changed");
	uint64_t h = vf_mix(n, K); vf_state(vf_mix(h, (uint64_t) (existing * 16 + null * 8 + outnull * 4 + fail * 2 + deep)));
}

/* ------------------------------------------------------------ option structs */

enum { F_OPT, F_CLUST, F_DATA, F_VERSION, F_SIZE, F_TYPES, F_SEED, F_PRIM, F_UM1, F_UM2, F_R0, F_R1, F_R2, F_BATCH, NF };
static const int NALT[NF] = { 1, 5, 3, 3, 5, 18, 10, 11, 6, 6, 9, 7, 7, 4 };
static int alt[NF];              /* 0: the default */
static scc_ClusterOptions O;
static uint32_t TC[65537];
static scc_TypeLabel TL[N + 1];
static scc_PointIndex PP[4];
static unsigned err;             /* classes of the errors present */
static int type_int[N];
static char prim[N];
static bool tricky;              /* the reference does not judge whether there is a solution */

static void radius(scc_RadiusMethod* m, double* r, int a)
{
	switch (a) {
	case 1: *m = SCC_RM_USE_SUPPLIED; *r = 3.0; break;
	case 2: *m = SCC_RM_USE_SUPPLIED; *r = 0.0; err |= INV; break;
	case 3: *m = SCC_RM_USE_SUPPLIED; *r = NAN; err |= INV; break;
	case 4: *m = (scc_RadiusMethod) (SCC_RM_USE_ESTIMATED + 1); err |= INV; break;
	case 5: *m = SCC_RM_NO_RADIUS; *r = -1.0; break;
	case 6: *m = SCC_RM_USE_ESTIMATED; *r = NAN; break;
	case 7: *m = SCC_RM_USE_SUPPLIED; *r = -1.0; err |= INV; break;
	case 8: *m = SCC_RM_USE_SUPPLIED; *r = INFINITY; break;
	case 9: *m = SCC_RM_USE_SEED_RADIUS; *r = 1.0; break;
	}
}

static void make_options(void)
{
	O = scc_get_default_options();
	O.size_constraint = 2;
	err = 0; tricky = false;
	for (int i = 0; i < N; ++i) { prim[i] = 1; type_int[i] = 0; }
	switch (alt[F_VERSION]) { case 1: O.options_version = 0; break; case 2: ++O.options_version; break; case 3: --O.options_version; break; }
	if (alt[F_VERSION]) err |= INV;
	switch (alt[F_SIZE]) { case 1: O.size_constraint = 0; err |= INV; break; case 2: O.size_constraint = 1; err |= INV; break; case 3: O.size_constraint = N; break; case 4: O.size_constraint = N + 1; err |= NOS; break; case 5: O.size_constraint = UINT32_MAX; err |= NOS; break; }
	for (int i = 0; i < N; ++i) TL[i] = (scc_TypeLabel) (i & 1);
	memset(TC, 0, 8 * sizeof *TC); TC[0] = TC[1] = 1;
	if (alt[F_TYPES]) { O.num_types = 2; O.type_constraints = TC; O.len_type_labels = N; O.type_labels = TL; }
	switch (alt[F_TYPES]) {
	case 0: break;
	case 1: break; /* 1 and 1 */
	case 2: O.num_types = 0; O.len_type_labels = 0; O.type_labels = NULL; err |= INV; break;
	case 3: O.num_types = 0; O.type_constraints = NULL; O.type_labels = NULL; err |= INV; break;
	case 4: O.num_types = 1; O.type_constraints = NULL; O.len_type_labels = 0; err |= INV; break;
	case 5: O.num_types = 1; O.type_constraints = NULL; O.len_type_labels = 0; O.type_labels = NULL; break;
	case 6: O.type_constraints = NULL; err |= INV; break;
	case 7: O.len_type_labels = N - 1; err |= INV; break;
	case 8: O.type_labels = NULL; err |= INV; break;
	case 9: TL[3] = 2; err |= INV; break;
	case 10: TL[0] = (scc_TypeLabel) -1; err |= INV; break;
	case 11: O.num_types = 65536; err |= TOO; break;
	case 12: O.num_types = UINT32_MAX; err |= TOO; break;
	case 13: O.num_types = 65535; tricky = true; TC[0] = TC[1] = 1; break;
	case 14: TC[0] = TC[1] = 2; break;                        /* too much for a size of 2 */
	case 15: TC[0] = 3; TC[1] = 0; break;                     /* more than there are, and too much for a size of 2 */
	case 16: TC[0] = UINT32_MAX; TC[1] = UINT32_MAX; break;
	case 17: O.len_type_labels = N + 1; break;
	case 18: TC[0] = TC[1] = 0; break;
	}
	if (alt[F_TYPES]) for (int i = 0; i < N; ++i) type_int[i] = i & 1;
	switch (alt[F_SEED]) {
	case 0: break;
	case 1: case 2: case 3: case 4: case 5: O.seed_method = (scc_SeedMethod) alt[F_SEED]; break;
	case 6: O.seed_method = (scc_SeedMethod) 6; err |= INV; break;
	case 7: O.seed_method = (scc_SeedMethod) -1; err |= INV; break;
	case 8: O.seed_method = (scc_SeedMethod) 999; err |= INV; break;
	case 9: O.seed_method = (scc_SeedMethod) INT_MAX; err |= INV; break;
	case 10: O.seed_method = (scc_SeedMethod) INT_MIN; err |= INV; break;
	}
	static const struct { int len; intmax_t v[3]; int bad; } P[] = {
		{ 0, { 0 }, 0 }, { 2, { 0, 2 }, 0 }, { 1, { 3 }, 0 }, { 2, { 2, 0 }, 1 }, { 2, { 1, 1 }, 1 }, { 2, { 1, N }, 1 }, { 2, { 0, -1 }, 1 }, { 3, { 0, 2, 1 }, 1 }, { 1, { N }, 1 } };
	if (alt[F_PRIM] >= 1 && alt[F_PRIM] <= 8) {
		const int k = alt[F_PRIM];
		for (int i = 0; i < P[k].len; ++i) PP[i] = (scc_PointIndex) P[k].v[i];
		O.primary_data_points = PP; O.len_primary_data_points = (size_t) P[k].len;
		if (P[k].bad) err |= INV;
		else { memset(prim, 0, N); for (int i = 0; i < P[k].len; ++i) prim[P[k].v[i]] = 1; }
	} else if (alt[F_PRIM] == 9) { O.primary_data_points = PP; PP[0] = 0; err |= INV; }
	else if (alt[F_PRIM] == 10) { O.len_primary_data_points = 2; err |= INV; }
	else if (alt[F_PRIM] == 11) { O.len_primary_data_points = 1; err |= INV; }
	static const struct { int v; int bad1, bad2; } U[] = { { 0, 0, 0 }, { 0, 0, 0 }, { 2, 0, 0 }, { 3, 0, 0 }, { 4, 1, 1 }, { -1, 1, 1 }, { 1, 0, 1 } };
	if (alt[F_UM1]) { const int k = alt[F_UM1]; O.primary_unassigned_method = (scc_UnassignedMethod) U[k].v; if (U[k].bad1) err |= INV; }
	if (alt[F_UM2]) { const int k = alt[F_UM2]; O.secondary_unassigned_method = (scc_UnassignedMethod) U[k].v; if (U[k].bad2) err |= INV; }
	radius(&O.seed_radius, &O.seed_supplied_radius, alt[F_R0]);
	if (alt[F_R0] == 6 || alt[F_R0] == 9) err |= INV; /* estimated or the seed radius itself */
	radius(&O.primary_radius, &O.primary_supplied_radius, alt[F_R1]);
	radius(&O.secondary_radius, &O.secondary_supplied_radius, alt[F_R2]);
	static const uint32_t BS[] = { 0, 1, 3, N, UINT32_MAX };
	O.batch_size = BS[alt[F_BATCH]];
	if (O.seed_method == SCC_SM_BATCHES) {
		if (O.num_types >= 2) err |= NIM;
		if (O.secondary_unassigned_method != SCC_UM_IGNORE) err |= NIM;
		if (O.primary_radius != SCC_RM_USE_SEED_RADIUS) err |= NIM;
	}
}

static void describe_options(void)
{
	static const char* const fn[NF] = { "no options", "clustering", "data", "version", "size", "types", "seeds", "primary points", "primary method", "secondary method", "seed radius", "primary radius", "secondary radius", "batch" };
	vf_note("alternatives:");
	for (int f = 0; f < NF; ++f) if (alt[f]) vf_note(" %s=%d", fn[f], alt[f]);
	vf_note("; size=%u types=%u seed_method=%d methods=%d,%d radii=%d(%g),%d(%g),%d(%g)", O.size_constraint, O.num_types, (int) O.seed_method, (int) O.primary_unassigned_method, (int) O.secondary_unassigned_method,
	        (int) O.seed_radius, O.seed_supplied_radius, (int) O.primary_radius, O.primary_supplied_radius, (int) O.secondary_radius, O.secondary_supplied_radius);
}

/* what a valid call gives, before and after */
static void probe(uint64_t* h)
{
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 2;
	int lab[N];
	vf_result r = { .lab = lab };
	vf_run_sc(DS4, &S, &o, &r);
	*h = vf_hash_result(&r);
}

static void options_case(void)
{
	make_options();
	vf_set_describe(describe_options);
	uint64_t hs = 1;
	for (int f = 0; f < NF; ++f) hs = vf_mix(hs, (uint64_t) alt[f]);
	static uint64_t base;
	if (!base) probe(&base);
	const scc_ClusterOptions was = O;
	scc_PointIndex pp[4]; scc_TypeLabel tl[N]; uint32_t tc[4];
	memcpy(pp, PP, sizeof pp); memcpy(tl, TL, sizeof tl); memcpy(tc, TC, sizeof tc);

	unsigned e = alt[F_OPT] ? INV : err, ec_sc = e;
	scc_Clabel ext[N + 1];
	for (int i = 0; i <= N; ++i) ext[i] = (scc_Clabel) (i < N ? i / 2 : 7);
	scc_Clabel ext0[N + 1];
	memcpy(ext0, ext, sizeof ext);
	scc_Clustering* c = NULL;
	/* clustering: 0 empty, 1 empty on the caller's array, 2 existing, 3 existing on the caller's array, 4 NULL, 5 another number of points */
	switch (alt[F_CLUST]) {
	case 0: scc_init_empty_clustering(N, NULL, &c); break;
	case 1: scc_init_empty_clustering(N, ext, &c); break;
	case 2: scc_init_existing_clustering(N, 2, ext, true, &c); break;
	case 3: scc_init_existing_clustering(N, 2, ext, false, &c); break;
	case 4: break;
	case 5: scc_init_empty_clustering(N + 1, NULL, &c); break;
	}
	const bool has = alt[F_CLUST] == 2 || alt[F_CLUST] == 3;
	if (has) ec_sc |= NIM;
	if (alt[F_CLUST] == 4 || alt[F_CLUST] == 5) ec_sc |= INV;
	if (alt[F_DATA]) ec_sc |= INV; /* 1 NULL, 2 another number of points, 3 not acceptable to the distance functions */
	if (alt[F_CLUST] == 5 && alt[F_DATA] == 2) { scc_free_clustering(&c); return; } /* they match each other */
	if (!alt[F_OPT]) {
		if (O.seed_method == SCC_SM_BATCHES && O.primary_unassigned_method != SCC_UM_IGNORE && O.primary_unassigned_method != SCC_UM_ANY_NEIGHBOR) ec_sc |= INV;
		if (O.num_types >= 2 && O.type_constraints && O.type_labels && (O.num_types == 2)) {
			uint64_t sum = 0;
			for (int t = 0; t < 2; ++t) { uint32_t m = 0; for (int i = 0; i < N; ++i) m += (type_int[i] == t); if (TC[t] > m) ec_sc |= NOS; sum += TC[t]; }
			if (sum > O.size_constraint) ec_sc |= INV;
		} else if (O.num_types == 65535 && O.size_constraint < 2) ec_sc |= INV;
	}
	const unsigned bad = ec_sc;
	unsigned allowed = bad;
	if (!bad) {
		const vf_problem p = { .sp = &S, .o = &O, .primary = prim, .type = (O.num_types >= 2 && !tricky) ? type_int : NULL };
		allowed = tricky ? (FINE | NOS) : vf_expected(&p);
	}
	const long live = vf_al.live;
	if (alt[F_DATA] == 3) refusing(true);
	const scc_ErrorCode ec = scc_sc_clustering(alt[F_DATA] == 1 ? NULL : alt[F_DATA] == 2 ? DS5 : DS4, alt[F_OPT] ? NULL : &O, c);
	if (alt[F_DATA] == 3) refusing(false);
	outcome(ec, allowed);
	if (memcmp(&was, &O, sizeof O) || memcmp(pp, PP, sizeof pp) || memcmp(tl, TL, sizeof tl) || memcmp(tc, TC, sizeof tc)) vf_fail("the caller's options were changed");
	if (ec != SCC_ER_OK && c) {
		uint64_t K = 9;
		if (scc_get_clustering_info(c, NULL, &K) != SCC_ER_OK || K != (has ? 2u : 0u)) vf_fail("a rejected call changed the number of clusters to %ju", (uintmax_t) K);
		if ((bad || has) && vf_al.live != live) vf_fail("a rejected call changed the memory held by the clustering");
		if (has) {
			scc_Clabel b[N];
			if (scc_get_cluster_labels(c, N, b) != SCC_ER_OK || memcmp(b, ext0, sizeof b)) vf_fail("a rejected call changed the clustering");
		}
		if (bad && memcmp(ext, ext0, sizeof ext)) vf_fail("a rejected call wrote to the caller's labels");
	}
	if (ext[N] != ext0[N]) vf_fail("wrote beyond the caller's labels");
	if (bad) { uint64_t h; probe(&h); if (h != base) vf_fail("a rejected call changed what a later valid call gives"); }
	scc_free_clustering(&c);

	/* the same options when checking a clustering */
	if (alt[F_CLUST] < 2 && !alt[F_DATA]) {
		bool ok = true;
		scc_init_existing_clustering(N, 2, ext0, true, &c);
		const scc_ErrorCode e2 = scc_check_clustering(c, alt[F_OPT] ? NULL : &O, &ok);
		outcome(e2, e ? e : FINE);
		if (e2 != SCC_ER_OK && ok) vf_fail("a rejected check says the clustering is fine");
		scc_free_clustering(&c);
	}
	if (memcmp(&was, &O, sizeof O) || memcmp(pp, PP, sizeof pp) || memcmp(tl, TL, sizeof tl) || memcmp(tc, TC, sizeof tc)) vf_fail("the caller's options were changed");
	vf_state(hs);
}

/* every option struct and call with up to k deviations from the defaults */
static void options_dev(int k)
{
	setup();
	memset(alt, 0, sizeof alt);
	int from = 0;
	for (int i = 0; i < k; ++i) {
		const int f = from + (int) vf_choose((unsigned) (NF - from + 1)) ;
		if (f == NF) break;
		alt[f] = 1 + (int) vf_choose((unsigned) NALT[f]);
		from = f + 1;
		if (i == 0 && !vf_shard()) return;
		if (from == NF) break;
	}
	options_case();
}
static void s_options(void) { options_dev(vf_tier ? 5 : 4); }

/* every setting of the seed radius, including those only valid elsewhere */
static void s_seed_radius(void)
{
	setup();
	memset(alt, 0, sizeof alt);
	alt[F_R0] = vf_range(0, 9);
	if (!vf_shard()) return;
	alt[F_R1] = vf_range(0, 9);
	alt[F_R2] = vf_range(0, 9);
	alt[F_SEED] = vf_range(0, 5);
	alt[F_UM1] = vf_range(0, 3);
	alt[F_UM2] = vf_range(0, 3);
	options_case();
}

/* ------------------------------------------------------------ the other calls */

static void s_other(void)
{
	setup();
	vf_set_describe(describe_what);
	/* clustering: 0 empty, 1 existing, 2 label equal to K, 3 label -1 or the largest, 4 all unassigned, 5 NULL, 6 another number of points */
	const int cl = vf_range(0, 6), call = vf_range(0, 5);
	if (!vf_shard()) return;
	const bool deep = vf_choose(2);
	scc_Clabel ext[6] = { 0, 0, 1, 1, 1, 7 }, ext0[6];
	if (cl == 2) ext[2] = 2;
	if (cl == 3) { ext[0] = ((scc_Clabel) -1 < 0) ? (scc_Clabel) -2 : (scc_Clabel) -1; if (ext[0] == SCC_CLABEL_NA) --ext[0]; }
	if (cl == 4) for (int i = 0; i < 5; ++i) ext[i] = SCC_CLABEL_NA;
	memcpy(ext0, ext, sizeof ext);
	scc_Clustering* c = NULL;
	if (cl == 0) scc_init_empty_clustering(N, deep ? NULL : ext, &c);
	else if (cl == 6) scc_init_existing_clustering(N + 1, 2, ext, deep, &c);
	else if (cl != 5) scc_init_existing_clustering(N, 2, ext, deep, &c);
	const long live = vf_al.live;
	unsigned a = 0;
	if (cl == 5) a |= INV;
	static uint64_t base;
	if (!base) probe(&base);
	scc_ErrorCode ec = SCC_ER_OK;
	bool changes = false;
	switch (call) {
	case 0: { /* hierarchical */
		static const uint32_t SZ[] = { 0, 1, 2, 3, N, N + 1, UINT32_MAX };
		const uint32_t size = SZ[vf_choose(7)];
		const int ds = (int) vf_choose(4);
		const bool batch = vf_choose(2);
		sprintf(what, "hierarchical_clustering, clustering %d, data %d, size %u, deep %d, batch %d", cl, ds, size, deep, batch);
		if (ds == 1 || ds == 3) a |= INV;
		if ((ds == 2) != (cl == 6) && cl != 5) a |= INV;
		if (size < 2) a |= INV;
		else if (size > (cl == 6 ? N + 1u : N)) a |= NOS;
		if (cl == 2 || cl == 3) a |= INV;
		if (ds == 3) refusing(true);
		ec = scc_hierarchical_clustering(ds == 1 ? NULL : ds == 2 ? DS5 : DS4, size, batch, c);
		if (ds == 3) refusing(false);
		if (!a) { a = FINE; changes = true; if (cl == 4) a |= INV | NOS; }
		break; }
	case 1: { /* stats */
		const int ds = (int) vf_choose(4);
		const bool outnull = vf_choose(2);
		sprintf(what, "get_clustering_stats, clustering %d, data %d, out %s", cl, ds, outnull ? "NULL" : "given");
		scc_ClusteringStats st;
		memset(&st, 0x5a, sizeof st);
		if (ds == 1 || ds == 3 || outnull || cl == 0 || cl == 2 || cl == 3) a |= INV;
		if ((ds == 2) != (cl == 6)) a |= INV;
		if (ds == 3) refusing(true);
		ec = scc_get_clustering_stats(ds == 1 ? NULL : ds == 2 ? DS5 : DS4, c, outnull ? NULL : &st);
		if (ds == 3) refusing(false);
		if (!a) a = FINE;
		else if (!outnull) {
			if (st.num_data_points || st.num_assigned || st.num_clusters || st.num_populated_clusters || st.sum_dists != 0.0 || st.max_dist != 0.0 || st.avg_cluster_size != 0.0) vf_fail("statistics although there was an error");
		}
		break; }
	case 2: { /* check */
		const bool outnull = vf_choose(2);
		sprintf(what, "check_clustering, clustering %d, out %s", cl, outnull ? "NULL" : "given");
		scc_ClusterOptions o = scc_get_default_options();
		o.size_constraint = 2;
		bool ok = true;
		if (outnull || cl == 0) a |= INV;
		ec = scc_check_clustering(c, &o, outnull ? NULL : &ok);
		if (a && !outnull && ok) vf_fail("a rejected check says the clustering is fine");
		if (!a) a = FINE;
		break; }
	case 3: { /* labels */
		static const size_t LEN[] = { 0, 1, 4, 5 };
		const size_t len = LEN[vf_choose(4)];
		const bool null = vf_choose(2);
		sprintf(what, "get_cluster_labels, clustering %d, length %zu, %s", cl, len, null ? "NULL" : "given");
		scc_Clabel b[8];
		for (int i = 0; i < 8; ++i) b[i] = 77;
		if (cl == 0 || len == 0 || null) a |= INV;
		ec = scc_get_cluster_labels(c, len, null ? NULL : b);
		for (size_t i = a ? 0 : len; i < 8; ++i) if (b[i] != 77) vf_fail("wrote labels at %zu", i);
		if (!a) a = FINE;
		break; }
	case 4: { /* copy */
		const bool outnull = vf_choose(2);
		sprintf(what, "copy_clustering, clustering %d, out %s", cl, outnull ? "NULL" : "given");
		scc_Clustering* out = (scc_Clustering*) ext;
		if (outnull) a |= INV;
		ec = scc_copy_clustering(c, outnull ? NULL : &out);
		if (!a) { a = FINE; if (ec == SCC_ER_OK) { if (!scc_is_initialized_clustering(out)) vf_fail("the copy is not initialized"); scc_free_clustering(&out); } }
		else if (!outnull && out) vf_fail("a copy is left behind");
		break; }
	default: { /* info, freeing nothing */
		const int m = (int) vf_choose(4);
		sprintf(what, "get_clustering_info, clustering %d, outputs %d", cl, m);
		uint64_t n = 5, K = 5;
		ec = scc_get_clustering_info(c, m & 1 ? NULL : &n, m & 2 ? NULL : &K);
		if (a && (n != 5 || K != 5)) vf_fail("information although there was an error");
		if (!a) a = FINE;
		scc_Clustering* none = NULL; scc_DataSet* nods = NULL;
		scc_free_clustering(NULL); scc_free_clustering(&none); scc_free_data_set(NULL); scc_free_data_set(&nods);
		if (scc_is_initialized_clustering(NULL) || scc_is_initialized_data_set(NULL)) vf_fail("nothing counts as initialized");
		uint32_t v[3] = { 9999, 9999, 9999 };
		scc_get_compiled_version(m & 1 ? NULL : &v[0], m & 2 ? NULL : &v[1], m == 3 ? NULL : &v[2]);
		if ((m & 1 ? 9999u : SCC_SCCLUST_MAJOR_VERSION) != v[0] || (m & 2 ? 9999u : SCC_SCCLUST_MINOR_VERSION) != v[1] || (m == 3 ? 9999u : SCC_SCCLUST_PATCH_VERSION) != v[2]) vf_fail("the version reported is %u.%u.%u", v[0], v[1], v[2]);
		break; }
	}
	outcome(ec, a);
	if (c && !changes) {
		uint64_t K = 9;
		if (scc_get_clustering_info(c, NULL, &K) != SCC_ER_OK || K != (cl == 0 ? 0u : 2u)) vf_fail("the number of clusters changed to %ju", (uintmax_t) K);
		if (vf_al.live != live) vf_fail("the memory held changed");
		scc_Clabel b[5];
		if (cl && (scc_get_cluster_labels(c, cl == 6 ? 5 : N, b) != SCC_ER_OK || memcmp(b, ext0, sizeof *b * (cl == 6 ? 5 : N)))) vf_fail("the clustering changed");
		if (memcmp(ext, ext0, sizeof ext)) vf_fail("the caller's labels changed");
	}
	if (ext[5] != 7) vf_fail("wrote beyond the caller's labels");
	scc_free_clustering(&c);
	uint64_t h; probe(&h);
	if (h != base) vf_fail("the call changed what a later valid call gives");
	uint64_t hs = 77;
	for (const char* s = what; *s; ++s) hs = vf_mix(hs, (uint64_t) *s);
	vf_state(vf_mix(hs, (uint64_t) deep));
}

/* declared numbers of clusters far beyond what can be handled */
static void s_many_clusters(void)
{
	setup();
	vf_set_describe(describe_what);
	const uint64_t CM = (uint64_t) SCC_CLABEL_MAX;
	uint64_t ks[80]; unsigned m = 0;
	/* around every power of two: where a product with the size of an element may wrap */
	for (int b = 36; b < 64; ++b) { ks[m++] = ((uint64_t) 1 << b); ks[m++] = ((uint64_t) 1 << b) + 1; }
	ks[m++] = UINT64_MAX / 24; ks[m++] = UINT64_MAX / 24 + 1; ks[m++] = UINT64_MAX / 8; ks[m++] = UINT64_MAX / 16 + 2; ks[m++] = CM - 1; ks[m++] = CM; ks[m++] = UINT64_MAX - 2;
	ks[m++] = UINT64_MAX / 24 + 3; ks[m++] = UINT64_MAX / 40 + 1; ks[m++] = UINT64_MAX / 32 + 1; ks[m++] = ((uint64_t) 1 << 63) + ((uint64_t) 1 << 62);
	const uint64_t K = ks[vf_choose(m)];
	if (!vf_shard()) return;
	const int call = vf_range(0, 4);
	const int types = call == 0 ? (int) vf_choose(4) : 0;
	if (K > CM || K < ((uint64_t) 1 << 31)) return;
	scc_Clabel lab[N] = { 0, 0, 1, 1 }, was[N];
	memcpy(was, lab, sizeof lab);
	scc_Clustering* c = NULL;
	if (scc_init_existing_clustering(N, K, lab, vf_choose(2), &c) != SCC_ER_OK) vf_fail("could not make a clustering with %ju clusters", (uintmax_t) K);
	sprintf(what, "a clustering said to have %ju clusters, call %d, types %d", (uintmax_t) K, call, types);
	scc_ErrorCode ec;
	unsigned a = MEM | TOO;
	const long live = vf_al.live;
	switch (call) {
	case 0: {
		scc_ClusterOptions o = scc_get_default_options();
		o.size_constraint = 2;
		static const uint32_t NT[] = { 0, 2, 3, 4 };
		static uint32_t tc[4]; static scc_TypeLabel tl[N];
		if (types) { o.num_types = NT[types]; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl; }
		bool ok = true;
		ec = scc_check_clustering(c, &o, &ok);
		if (ok) vf_fail("a clustering with empty clusters is fine");
		a |= FINE; /* saying that it is not fine is right as well */
		break; }
	case 1: { scc_ClusteringStats st; ec = scc_get_clustering_stats(DS4, c, &st); break; }
	case 2: ec = scc_hierarchical_clustering(DS4, 2, false, c); break;
	case 3: { scc_Clustering* d = NULL; ec = scc_copy_clustering(c, &d); a = FINE; scc_free_clustering(&d); break; }
	default: { scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; ec = scc_sc_clustering(DS4, &o, c); a = NIM; break; }
	}
	outcome(ec, a);
	uint64_t k2 = 0;
	scc_Clabel b[N];
	if (scc_get_clustering_info(c, NULL, &k2) != SCC_ER_OK || k2 != K || scc_get_cluster_labels(c, N, b) != SCC_ER_OK || memcmp(b, was, sizeof b)) vf_fail("the clustering changed");
	if (vf_al.live != live) vf_fail("memory leaked");
	scc_free_clustering(&c);
	uint64_t h = vf_mix(K, (uint64_t) call);
	vf_state(vf_mix(h, (uint64_t) types));
}

const vf_scenario vf_scenarios[] = {
	{ "init_data_set", s_init_data_set, 0 },
	{ "init clustering", s_init_clustering, 0 },
	{ "options, several deviations", s_options, 0 },
	{ "options, all radius settings", s_seed_radius, 0 },
	{ "other calls", s_other, 0 },
	{ "huge numbers of clusters", s_many_clusters, 0 },
	{ 0 }
};

#else /* PROP 19 */

/* Calls that fail in different ways, and ones that succeed. Every call returns its error code. */
static scc_ErrorCode run_sc_with(scc_ClusterOptions* o, void* ds)
{
	scc_Clustering* c = NULL;
	scc_ErrorCode ec = scc_init_empty_clustering(N, NULL, &c);
	if (ec != SCC_ER_OK) return ec;
	ec = scc_sc_clustering(ds, o, c);
	scc_free_clustering(&c);
	return ec;
}
static scc_ClusterOptions def(void) { scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; return o; }
static vf_backend B;
static void on_backend(int fail_at) { vf_backend_init(&B, &S, 0); B.fail_at = fail_at; vf_backend_install(); }

static scc_ErrorCode e_size(void) { scc_ClusterOptions o = def(); o.size_constraint = 1; return run_sc_with(&o, DS4); }
static scc_ErrorCode e_large_size(void) { scc_ClusterOptions o = def(); o.size_constraint = 9; return run_sc_with(&o, DS4); }
static scc_ErrorCode e_radius(void) { scc_ClusterOptions o = def(); o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 0.5; return run_sc_with(&o, DS4); }
static scc_ErrorCode e_version(void) { scc_ClusterOptions o = def(); ++o.options_version; return run_sc_with(&o, DS4); }
static scc_ErrorCode e_points(void) { scc_ClusterOptions o = def(); return run_sc_with(&o, DS5); }
static scc_ErrorCode e_many(void) { scc_Clustering* c; return scc_init_empty_clustering(UINT64_MAX, NULL, &c); }
static scc_ErrorCode e_dims(void) { scc_DataSet* d; return scc_init_data_set(1, 70000, 70000, XY, &d); }
static scc_ErrorCode e_nomem(void) { scc_Clustering* c; vf_alloc_arm(1, 0, 0); const scc_ErrorCode ec = scc_init_empty_clustering(4, NULL, &c); vf_alloc_disarm(); return ec; }
static scc_ErrorCode e_nomem_sc(void) { scc_ClusterOptions o = def(); scc_Clustering* c = NULL; scc_init_empty_clustering(N, NULL, &c); vf_alloc_arm(0, 0, 1); on_backend(0); const scc_ErrorCode ec = scc_sc_clustering(&B, &o, c); vf_alloc_disarm(); vf_backend_uninstall(); scc_free_clustering(&c); return ec; }
static scc_ErrorCode e_dist(void) { on_backend(1); scc_ClusterOptions o = def(); const scc_ErrorCode ec = run_sc_with(&o, &B); vf_backend_uninstall(); return ec; }
static scc_ErrorCode e_notimpl(void) { scc_Clabel l[N] = { 0, 0, 1, 1 }; scc_Clustering* c; scc_init_existing_clustering(N, 2, l, true, &c); scc_ClusterOptions o = def(); const scc_ErrorCode ec = scc_sc_clustering(DS4, &o, c); scc_free_clustering(&c); return ec; }
static scc_ErrorCode e_batch_type(void) { static uint32_t tc[2] = { 1, 1 }; static scc_TypeLabel tl[N] = { 0, 1, 0, 1 }; scc_ClusterOptions o = def(); o.seed_method = SCC_SM_BATCHES; o.num_types = 2; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl; return run_sc_with(&o, DS4); }
static scc_ErrorCode e_group(void) { static uint32_t tc[2] = { 1, 1 }; static scc_TypeLabel tl[N] = { 0, 0, 0, 0 }; scc_ClusterOptions o = def(); o.num_types = 2; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl; return run_sc_with(&o, DS4); }
static scc_ErrorCode e_hier(void) { scc_Clustering* c; scc_init_empty_clustering(N, NULL, &c); const scc_ErrorCode ec = scc_hierarchical_clustering(DS4, 7, false, c); scc_free_clustering(&c); return ec; }
static scc_ErrorCode e_labels(void) { scc_Clustering* c; scc_init_empty_clustering(N, NULL, &c); scc_Clabel b[N]; const scc_ErrorCode ec = scc_get_cluster_labels(c, 0, b); scc_free_clustering(&c); return ec; }
static scc_ErrorCode g_sc(void) { scc_ClusterOptions o = def(); return run_sc_with(&o, DS4); }
static scc_ErrorCode g_batch(void) { scc_ClusterOptions o = def(); o.seed_method = SCC_SM_BATCHES; return run_sc_with(&o, DS4); }
static scc_ErrorCode g_hier(void) { scc_Clustering* c; scc_init_empty_clustering(N, NULL, &c); const scc_ErrorCode ec = scc_hierarchical_clustering(DS4, 2, true, c); scc_free_clustering(&c); return ec; }
static scc_ErrorCode g_stats(void) { scc_Clabel l[N] = { 0, 0, 1, 1 }; scc_Clustering* c; scc_init_existing_clustering(N, 2, l, true, &c); scc_ClusteringStats st; const scc_ErrorCode ec = scc_get_clustering_stats(DS4, c, &st); scc_free_clustering(&c); return ec; }

/* a clustering that succeeds although an allocation fails on the way (the first that it can do without) */
static scc_ErrorCode g_recover(void)
{
	static long at;
	scc_ClusterOptions o = def();
	o.seed_method = SCC_SM_EXCLUSION_ORDER;
	for (long k = at ? at : 1; ; ++k) {
		vf_alloc_arm(k, 0, 0);
		const scc_ErrorCode ec = run_sc_with(&o, DS4);
		const long failed = vf_al.failed;
		vf_alloc_disarm();
		if (ec == SCC_ER_OK || at) { if (ec == SCC_ER_OK) at = k; return ec; }
		if (!failed) return ec;
	}
}

static const struct { const char* name; scc_ErrorCode (*call)(void); scc_ErrorCode ec; } OP[] = {
	{ "size of 1", e_size, SCC_ER_INVALID_INPUT }, { "size larger than the number of points", e_large_size, SCC_ER_NO_SOLUTION }, { "radius too small", e_radius, SCC_ER_NO_SOLUTION },
	{ "options of another version", e_version, SCC_ER_INVALID_INPUT }, { "data set of another size", e_points, SCC_ER_INVALID_INPUT }, { "too many points", e_many, SCC_ER_TOO_LARGE_PROBLEM }, { "too many dimensions", e_dims, SCC_ER_TOO_LARGE_PROBLEM },
	{ "no memory for an object", e_nomem, SCC_ER_NO_MEMORY }, { "no memory for clustering", e_nomem_sc, SCC_ER_NO_MEMORY }, { "failed search", e_dist, SCC_ER_DIST_SEARCH_ERROR }, { "existing clustering", e_notimpl, SCC_ER_NOT_IMPLEMENTED }, { "batches with types", e_batch_type, SCC_ER_NOT_IMPLEMENTED },
	{ "too few of a type", e_group, SCC_ER_NO_SOLUTION }, { "hierarchical, size too large", e_hier, SCC_ER_NO_SOLUTION }, { "no room for labels", e_labels, SCC_ER_INVALID_INPUT },
	{ "clustering", g_sc, SCC_ER_OK }, { "clustering in batches", g_batch, SCC_ER_OK }, { "hierarchical clustering", g_hier, SCC_ER_OK }, { "statistics", g_stats, SCC_ER_OK },
	{ "clustering that recovers from a failed allocation", g_recover, SCC_ER_OK } };
#define NOP ((int) (sizeof OP / sizeof *OP))
#define ML 512
static char BASE[NOP][ML];   /* the message of each failing call when it is the first thing that happens since */
static char INITIAL[ML];
static int hist[8], nh;

static void describe(void) { for (int i = 0; i < nh; ++i) vf_note("%s%s", i ? "; " : "", OP[hist[i]].name); }

/* the message without where in the source it comes from */
static const char* text(const char* m)
{
	if (strncmp(m, "(scclust", 8)) return m;
	const char* e = strchr(m, ')');
	return e ? e + 1 : m;
}

static void get(char* b)
{
	memset(b, 'x', ML);
	if (!scc_get_latest_error(ML, b)) vf_fail("the latest error could not be written");
	vf_transition();
	if (!memchr(b, 0, ML)) vf_fail("the message is not terminated");
	if (b[0] == 0 || text(b)[0] == 0) vf_fail("the message is empty");
}

static void base(void)
{
	setup();
	if (BASE[0][0]) return;
	get(INITIAL);
	for (int i = 0; i < NOP; ++i) {
		const scc_ErrorCode ec = OP[i].call();
		if (ec != OP[i].ec) vf_fail("%s: %s instead of %s", OP[i].name, vf_ecname(ec), vf_ecname(OP[i].ec));
		if (ec != SCC_ER_OK) get(BASE[i]);
	}
	/* errors of different classes are told apart, and differ from there being none */
	for (int i = 0; i < NOP; ++i) if (OP[i].ec != SCC_ER_OK) {
		if (!strcmp(text(BASE[i]), text(INITIAL))) vf_fail("'%s' is described as: %s", OP[i].name, BASE[i]);
		for (int j = 0; j < i; ++j) if (OP[j].ec != SCC_ER_OK && OP[j].ec != OP[i].ec && !strcmp(text(BASE[i]), text(BASE[j]))) vf_fail("'%s' and '%s' have the same description: %s", OP[i].name, OP[j].name, BASE[i]);
	}
}

static void buffers(const char* full)
{
	static char b[ML + 16];
	const size_t L = strlen(full);
	char before[ML];
	for (size_t len = 0; len <= L + 3; ++len) {
		memset(b, '#', sizeof b);
		const bool r = scc_get_latest_error(len, b);
		vf_transition();
		if (r != (len > 0)) vf_fail("a buffer of %zu characters: %s", len, r ? "true" : "false");
		for (size_t i = len; i < L + 8; ++i) if (b[i] != '#') vf_fail("a buffer of %zu characters was written at %zu", len, i);
		if (len == 0) continue;
		const size_t k = L < len - 1 ? L : len - 1;
		if (memcmp(b, full, k) || b[k] != 0) vf_fail("a buffer of %zu characters holds '%.*s'", len, (int) len, b);
	}
	if (scc_get_latest_error(10, NULL) || scc_get_latest_error(0, NULL) || scc_get_latest_error(SIZE_MAX, NULL)) vf_fail("success without a buffer");
	get(before);
	if (strcmp(before, full)) vf_fail("asking for the message changed it");
}

static void history(int depth)
{
	base();
	vf_set_describe(describe);
	nh = 0;
	char m[ML], prev[ML];
	for (int i = 0; i < depth; ++i) {
		hist[nh++] = (int) vf_choose(NOP);
		if (i == 0 && !vf_shard()) return;
	}
	int last = -1;
	uint64_t h = 5;
	get(prev);
	for (int i = 0; i < depth; ++i) {
		const scc_ErrorCode ec = OP[hist[i]].call();
		vf_transition();
		if (ec != OP[hist[i]].ec) vf_fail("%s: %s instead of %s", OP[hist[i]].name, vf_ecname(ec), vf_ecname(OP[hist[i]].ec));
		if (ec != SCC_ER_OK) last = hist[i];
		get(m);
		if (ec != SCC_ER_OK && strcmp(text(m), text(BASE[last]))) vf_fail("after '%s': '%s' instead of '%s'", OP[last].name, m, BASE[last]);
		/* what is reported after a failure that the library made up for is the earlier error or none, not the one made up for */
		if (OP[hist[i]].call == g_recover) { if (strcmp(m, prev)) { if (strcmp(m, INITIAL)) vf_fail("after a call that succeeded the error is '%s'", m); last = -1; } }
		else if (ec == SCC_ER_OK && last >= 0 && strcmp(m, prev)) vf_fail("a successful call replaced the latest error '%s' by '%s'", prev, m);
		strcpy(prev, m);
		if (i == depth - 1) buffers(m);
		h = vf_mix(h, (uint64_t) hist[i]);
		vf_validated();
	}
	uint64_t t = 3;
	for (const char* s = text(m); *s; ++s) t = vf_mix(t, (uint64_t) *s);
	vf_outcome(t);
	vf_state(h);
}
static void s_history(void) { history(vf_tier ? 5 : 4); }

/* every allocation or search failing in turn: the description is never one of another class */
static void s_faults(void)
{
	base();
	vf_set_describe(describe_what);
	const int method = vf_range(0, 5), shape = vf_range(0, 5);
	if (!vf_shard()) return;
	const bool search = vf_choose(2);
	const int prior = (int) vf_choose(NOP);
	for (int k = 1; k < 60; ++k) {
		OP[prior].call();
		scc_ClusterOptions o = def();
		o.seed_method = (scc_SeedMethod) method;
		static uint32_t tc[2] = { 1, 1 }; static scc_TypeLabel tl[N] = { 0, 1, 0, 1 };
		static scc_PointIndex pp[2] = { 0, 2 };
		if (shape == 1 && method != SCC_SM_BATCHES) { o.num_types = 2; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl; o.size_constraint = 3; }
		if (shape == 2) { o.primary_data_points = pp; o.len_primary_data_points = 2; }
		if (shape == 3 && method != SCC_SM_BATCHES) { o.primary_unassigned_method = SCC_UM_CLOSEST_SEED; o.secondary_unassigned_method = SCC_UM_CLOSEST_ASSIGNED; o.primary_data_points = pp; o.len_primary_data_points = 2; o.primary_radius = SCC_RM_USE_ESTIMATED; }
		on_backend(search ? k : 0);
		scc_Clustering* c = NULL;
		scc_Clabel l[N] = { 0, 0, 0, 1 };
		if (shape == 5) scc_init_existing_clustering(N, 2, l, true, &c); else scc_init_empty_clustering(N, NULL, &c);
		sprintf(what, "after '%s', seed method %d, shape %d, %s %d fails", OP[prior].name, method, shape, search ? "search" : "allocation", k);
		if (!search) vf_alloc_arm(k, 0, 0);
		scc_ErrorCode ec;
		scc_ClusteringStats st;
		if (shape == 4) ec = scc_hierarchical_clustering(&B, 2, method & 1, c);
		else if (shape == 5) ec = method & 1 ? scc_get_clustering_stats(&B, c, &st) : scc_hierarchical_clustering(&B, 2, method & 2, c);
		else ec = scc_sc_clustering(&B, &o, c);
		vf_al.fail1 = 0;
		const bool injected = search ? B.failed > 0 : vf_al.failed > 0;
		vf_alloc_disarm();
		vf_backend_uninstall();
		scc_free_clustering(&c);
		vf_transition();
		if (ec != SCC_ER_OK) {
			char m[ML];
			get(m);
			for (int j = 0; j < NOP; ++j) if (OP[j].ec != SCC_ER_OK && OP[j].ec != ec && !strcmp(text(m), text(BASE[j]))) vf_fail("%s is described as '%s'", vf_ecname(ec), m);
			if (!strcmp(text(m), text(INITIAL))) vf_fail("%s is described as '%s'", vf_ecname(ec), m);
			vf_outcome(vf_mix((uint64_t) ec, (uint64_t) k));
		}
		vf_validated();
		if (!injected) break;
	}
	uint64_t h = vf_mix((uint64_t) method, (uint64_t) shape);
	h = vf_mix(h, (uint64_t) search);
	vf_state(vf_mix(h, (uint64_t) prior));
}

const vf_scenario vf_scenarios[] = {
	{ "histories of calls", s_history, 0 },
	{ "faults", s_faults, 0 },
	{ 0 }
};
#endif
