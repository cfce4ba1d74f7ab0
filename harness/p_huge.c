/* Data sets far larger than the enumerated ones, built from many small groups of points that lie far from
 * each other. What happens in a group does not depend on the other groups, so the reference judges each
 * group by itself. This reaches more than 1000 seeds, more than 65536 clusters and points, and the growth
 * of arrays. The points lie on a line; a search by bisection answers for them. */
#define VF_NO_REDIRECT
#include <math.h>
#include "vf.h"

const int vf_watchdog_seconds = 120;

#define NMAX 420000
#define GAP 64.0
static int n, ngroups;
static double X[NMAX];
static int ORD[NMAX], RANK[NMAX];     /* points by position; and back */
static int GRP[NMAX], SLOT[NMAX];
static int FIRST[NMAX + 1], LEN[NMAX]; /* groups: points FIRST .. in order of position */
static scc_PointIndex PRIM[NMAX];
static scc_TypeLabel TL[NMAX];
static int MAGIC_SET = 77;

/* ---------------------------------------------------------------- distances */
typedef struct { int kind; size_t len; int* ranks; } sobj;
static long open_objs;

static bool be_check(void* d) { return d == &MAGIC_SET; }
static size_t be_num(void* d) { (void) d; return (size_t) n; }
static int pt(const scc_PointIndex* idx, size_t i)
{
	const uintmax_t v = idx ? (uintmax_t) idx[i] : (uintmax_t) i;
	if (v >= (uintmax_t) n) vf_fail("a distance function was given the point %ju of %d points", v, n);
	return (int) v;
}
static bool be_matrix(void* d, size_t len, const scc_PointIndex* idx, double* out)
{
	(void) d;
	for (size_t i = 0; i < len; ++i) for (size_t j = i + 1; j < len; ++j) *out++ = fabs(X[pt(idx, i)] - X[pt(idx, j)]);
	return true;
}
static bool be_rows(void* d, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* out)
{
	(void) d;
	for (size_t i = 0; i < nq; ++i) for (size_t j = 0; j < nc; ++j) *out++ = fabs(X[pt(q, i)] - X[pt(c, j)]);
	return true;
}
static int cmpi(const void* a, const void* b) { const int x = *(const int*) a, y = *(const int*) b; return (x > y) - (x < y); }
static sobj* mk(int kind, size_t len, const scc_PointIndex* idx)
{
	sobj* o = malloc(sizeof *o);
	o->kind = kind; o->len = len; o->ranks = malloc(sizeof(int) * len);
	for (size_t i = 0; i < len; ++i) o->ranks[i] = RANK[pt(idx, i)];
	qsort(o->ranks, len, sizeof(int), cmpi);
	++open_objs;
	return o;
}
static bool cl(void** p) { sobj* o = *p; if (o) { free(o->ranks); free(o); --open_objs; *p = NULL; } return true; }
static bool be_initmax(void* d, size_t len, const scc_PointIndex* idx, iscc_MaxDistObject** out) { (void) d; *out = (iscc_MaxDistObject*) mk(1, len, idx); return true; }
static bool be_closemax(iscc_MaxDistObject** p) { return cl((void**) p); }
static bool be_max(iscc_MaxDistObject* mo, size_t nq, const scc_PointIndex* q, scc_PointIndex* oi, double* od)
{
	const sobj* o = (const sobj*) mo;
	for (size_t i = 0; i < nq; ++i) {
		const double x = X[pt(q, i)];
		const int a = ORD[o->ranks[0]], b = ORD[o->ranks[o->len - 1]];
		const bool left = fabs(x - X[a]) >= fabs(x - X[b]);
		oi[i] = (scc_PointIndex) (left ? a : b);
		od[i] = fabs(x - X[left ? a : b]);
	}
	return true;
}
static bool be_initnn(void* d, size_t len, const scc_PointIndex* idx, iscc_NNSearchObject** out) { (void) d; *out = (iscc_NNSearchObject*) mk(2, len, idx); return true; }
static bool be_closenn(iscc_NNSearchObject** p) { return cl((void**) p); }
static bool be_nn(iscc_NNSearchObject* no, size_t nq, const scc_PointIndex* q, uint32_t k, bool rs, double r, size_t* out_ok, scc_PointIndex* oq, scc_PointIndex* onn)
{
	const sobj* o = (const sobj*) no;
	size_t ok = 0;
	for (size_t i = 0; i < nq; ++i) {
		const int p = pt(q, i), rk = RANK[p];
		size_t lo = 0, hi = o->len;
		while (lo < hi) { const size_t m = (lo + hi) / 2; if (o->ranks[m] < rk) lo = m + 1; else hi = m; }
		size_t a = lo, b = lo, m = 0; /* [a, b) are taken */
		for (; m < k; ++m) {
			const double da = a > 0 ? fabs(X[p] - X[ORD[o->ranks[a - 1]]]) : INFINITY, db = b < o->len ? fabs(X[p] - X[ORD[o->ranks[b]]]) : INFINITY;
			if (da == INFINITY && db == INFINITY) break;
			if (rs && da > r && db > r) break;
			onn[ok * k + m] = (scc_PointIndex) (db <= da ? ORD[o->ranks[b++]] : ORD[o->ranks[--a]]);
		}
		if (m < k) continue;
		if (oq) oq[ok] = (scc_PointIndex) p;
		++ok;
	}
	*out_ok = ok;
	return true;
}

/* ------------------------------------------------------------------ groups */
#define MAXM 8
typedef struct { int m; double x[MAXM]; unsigned prim; } shape;   /* prim: the primary points, if not all are */
typedef struct { const char* name; int sc, nshapes; int sh[3]; } mix;
static const shape SH[] = {
	{ 2, { 0, 2 }, 1 },                      /* 0 */
	{ 3, { 0, 2, 5 }, 3 },                   /* 1 */
	{ 3, { 0, 2, 4 }, 3 },                   /* 2: the third within the estimate */
	{ 3, { 0, 2, 4 + 1.0 / 1024 }, 3 },                 /* 3: beyond the estimate */
	{ 5, { 0, 2, 4, 7, 9 }, 0x13 },          /* 4 */
	{ 3, { 0, 1, 2 }, 2 },                   /* 5 */
	{ 5, { 0, 1, 2, 3, 3 + 1.0 / 1024 }, 2 },           /* 6: one within, one beyond the estimate of 1 */
	{ 7, { 0, 1, 2.5, 3, 5, 6, 9 }, 0x41 },  /* 7 */
	{ 6, { 0, 1, 3, 4, 8, 8.5 }, 0x3f },     /* 8 */
};
static const mix MIX[] = {
	{ "pairs", 2, 1, { 0 } }, { "pairs with one more", 2, 2, { 1, 0 } }, { "pairs, one within and one beyond the estimate", 2, 2, { 2, 3 } },
	{ "groups of 2, 5 and 3", 2, 3, { 0, 4, 2 } }, { "triples", 3, 2, { 5, 6 } }, { "groups of 5, 7 and 6", 3, 3, { 6, 7, 8 } },
};
#define NMIX ((int) (sizeof MIX / sizeof MIX[0]))
static const mix* M;
static int SHAPE[NMAX];
static const char* layout_name;

static void build_groups(const mix* mx, int groups, int layout)
{
	M = mx; ngroups = groups; n = 0;
	for (int g = 0; g < groups; ++g) {
		const shape* s = &SH[SHAPE[g] = mx->sh[g % mx->nshapes]];
		FIRST[g] = n; LEN[g] = s->m; n += s->m;
	}
	if (n > NMAX) vf_error("too many points");
	/* in order of position; or scattered by a stride */
	long stride = layout ? 7919 : 1;
	while (stride > 1 && n % 7919 == 0) stride = 7907;
	layout_name = layout ? "scattered" : "in order";
	int r = 0;
	for (int g = 0; g < groups; ++g) for (int j = 0; j < LEN[g]; ++j, ++r) {
		const int p = (int) ((long) r * stride % n);
		ORD[r] = p; RANK[p] = r; GRP[p] = g; SLOT[p] = j;
		X[p] = GAP * g + SH[SHAPE[g]].x[j];
	}
}

static int groups_for(const mix* mx, int points_or_clusters, bool clusters)
{
	double per = 0;
	for (int i = 0; i < mx->nshapes; ++i) per += clusters ? 1 : SH[mx->sh[i]].m;
	return (int) (points_or_clusters / (per / mx->nshapes)) + 1;
}

static scc_ClusterOptions O, OC;
static int CL1[NMAX], CL2[NMAX];
static vf_result CORE = { .lab = CL1 }, RES = { .lab = CL2 };
static bool core_done, res_done;
static vf_space WHOLE;
static bool some_primary;
static int bad_group;

static void describe(void)
{
	if (!M) return;
	vf_note("%d points in %d groups (%s), %s; ", n, ngroups, M->name, layout_name);
	scc_ClusterOptions o = O;
	vf_note("size %u, seed method %d, batch %u, seed radius %d (%g), assignment %d/%d radii %d (%g)/%d (%g), %s primary, %u types; ", o.size_constraint, (int) o.seed_method, o.batch_size, (int) o.seed_radius, o.seed_supplied_radius,
	        (int) o.primary_unassigned_method, (int) o.secondary_unassigned_method, (int) o.primary_radius, o.primary_supplied_radius, (int) o.secondary_radius, o.secondary_supplied_radius, some_primary ? "some" : "all", o.num_types);
	if (core_done) vf_note("before assignment: %s, %ld clusters; ", vf_ecname(CORE.ec), CORE.K);
	if (res_done) vf_note("result: %s, %ld clusters; ", vf_ecname(RES.ec), RES.K);
	if (bad_group >= 0) {
		vf_note("group %d: point (position, label before, after)", bad_group);
		for (int j = 0; j < LEN[bad_group]; ++j) { const int p = ORD[FIRST[bad_group] + j]; vf_note(" %d (%g, %d, %d)", p, X[p], CL1[p], CL2[p]); }
		vf_note("; ");
	}
}

static void install(void)
{
	if (!scc_set_dist_functions(be_check, be_num, be_matrix, be_rows, be_initmax, be_max, be_closemax, be_initnn, be_nn, be_closenn)) vf_fail("a complete set of distance functions was rejected");
	open_objs = 0;
}

/* groups, layout, method, primary points, types */
static bool choose_case(bool types, bool batches)
{
	bad_group = -1; M = NULL; core_done = res_done = some_primary = false;
	vf_set_describe(describe);
	const mix* mx = &MIX[vf_choose(NMIX)];
	const int size = (int) vf_choose(vf_tier ? 4 : 3);
	const int layout = (int) vf_choose(size < 2 || vf_tier ? 2 : 1);
	O = scc_get_default_options();
	O.size_constraint = (uint32_t) mx->sc;
	O.seed_supplied_radius = O.primary_supplied_radius = O.secondary_supplied_radius = 0.125;
	O.seed_method = (scc_SeedMethod) vf_choose(6);
	if (O.seed_method == SCC_SM_BATCHES) { if (types || !batches) return false; O.batch_size = vf_choose(2) ? 777 : 0; }
	some_primary = vf_choose(2);
	if (vf_choose(2)) { O.seed_radius = SCC_RM_USE_SUPPLIED; O.seed_supplied_radius = mx->sc == 2 ? 2.0 : 3.0; }
	if (types) { if (mx->sc == 3 && vf_choose(2)) O.size_constraint = 2; }
	if (size >= 2 && types && mx == &MIX[0]) return false;
	build_groups(mx, size == 0 ? groups_for(mx, 1100, true) : size == 1 ? groups_for(mx, 2100, true) : size == 2 ? groups_for(mx, 65800, true) : groups_for(mx, 140000, false), layout);
	if (types) {
		static const uint32_t tc[2] = { 1, 1 };
		O.num_types = 2; O.type_constraints = tc; O.type_labels = TL; O.len_type_labels = (size_t) n;
		for (int p = 0; p < n; ++p) TL[p] = (scc_TypeLabel) (SLOT[p] % 2);
	}
	if (some_primary) {
		size_t k = 0;
		for (int p = 0; p < n; ++p) if (SH[SHAPE[GRP[p]]].prim >> SLOT[p] & 1) PRIM[k++] = (scc_PointIndex) p;
		O.primary_data_points = PRIM; O.len_primary_data_points = k;
	}
	WHOLE.n = n;
	return true;
}

static uint64_t case_hash(void)
{
	uint64_t h = vf_mix((uint64_t) n, (uint64_t) (M - MIX));
	h = vf_mix(h, (uint64_t) O.seed_method * 100 + (uint64_t) O.primary_unassigned_method * 10 + (uint64_t) O.secondary_unassigned_method);
	h = vf_mix(h, (uint64_t) O.seed_radius * 100 + (uint64_t) O.primary_radius * 10 + (uint64_t) O.secondary_radius);
	return vf_mix(vf_mix(h, O.batch_size), (uint64_t) some_primary * 2 + (uint64_t) (*layout_name == 's') + O.size_constraint * 4u);
}

static bool choose_rest(void)
{
	static const struct { int pm, sm; scc_RadiusMethod r; } A[] = {
		{ SCC_UM_ANY_NEIGHBOR, SCC_UM_IGNORE, SCC_RM_NO_RADIUS }, { SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_ASSIGNED, SCC_RM_USE_ESTIMATED },
		{ SCC_UM_CLOSEST_SEED, SCC_UM_CLOSEST_SEED, SCC_RM_NO_RADIUS }, { SCC_UM_IGNORE, SCC_UM_CLOSEST_ASSIGNED, SCC_RM_USE_SUPPLIED }, { SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED, SCC_RM_USE_SEED_RADIUS } };
	const unsigned a = vf_choose(5);
	if (O.seed_method == SCC_SM_BATCHES) {
		if (a > 1) return false;
		O.primary_radius = SCC_RM_USE_SEED_RADIUS; O.secondary_radius = SCC_RM_NO_RADIUS;
		O.primary_unassigned_method = a ? SCC_UM_IGNORE : SCC_UM_ANY_NEIGHBOR; O.secondary_unassigned_method = SCC_UM_IGNORE;
		return true;
	}
	O.primary_unassigned_method = (scc_UnassignedMethod) A[a].pm; O.secondary_unassigned_method = (scc_UnassignedMethod) A[a].sm;
	O.primary_radius = O.secondary_radius = A[a].r;
	O.primary_supplied_radius = O.secondary_supplied_radius = 2.5;
	/* the estimate is the mean over all groups: only where they agree is it what a group by itself has */
	if (A[a].r == SCC_RM_USE_ESTIMATED && !(some_primary && O.num_types < 2 && (M == &MIX[0] || M == &MIX[2] || M == &MIX[4]))) return false;
	return true;
}

/* judge every group by itself */
#define SEEN (1 << 14)
static uint64_t seen[SEEN];
static bool first_time(uint64_t h)
{
	if (h == 0) h = 1;
	for (size_t i = h % SEEN, t = 0; t < SEEN / 2; i = (i + 1) % SEEN, ++t) {
		if (seen[i] == h) return false;
		if (seen[i] == 0) { seen[i] = h; return true; }
	}
	return true;
}

static int owner1[NMAX + 1], owner2[NMAX + 1];

static void judge_groups(int flags)
{
	memset(seen, 0, sizeof seen);
	bad_group = -1;
	long used1 = 0, used2 = 0;
	if (CORE.K > n || RES.K > n) vf_fail("%ld clusters of %d points", RES.K, n);
	for (long k = 0; k < CORE.K; ++k) owner1[k] = -1;
	for (long k = 0; k < RES.K; ++k) owner2[k] = -1;
	for (int p = 0; p < n; ++p) {
		bad_group = GRP[p];
		const int a = CL1[p], b = RES.ec == SCC_ER_OK ? CL2[p] : -1;
		if (a < -1 || a >= CORE.K || b < -1 || b >= RES.K) vf_fail("point %d has the label %d", p, b);
		if (a >= 0) { if (owner1[a] < 0) { owner1[a] = GRP[p]; ++used1; } else if (owner1[a] != GRP[p]) vf_fail("a cluster has points of groups %d and %d, which are far from each other", owner1[a], GRP[p]); }
		if (b >= 0) { if (owner2[b] < 0) { owner2[b] = GRP[p]; ++used2; } else if (owner2[b] != GRP[p]) vf_fail("a cluster has points of groups %d and %d, which are far from each other", owner2[b], GRP[p]); }
	}
	bad_group = -1;
	if (used1 != CORE.K || (RES.ec == SCC_ER_OK && used2 != RES.K)) vf_fail("only %ld of %ld clusters have points", used2, RES.K);
	for (int g = 0; g < ngroups; ++g) {
		const shape* s = &SH[SHAPE[g]];
		int l1[MAXM], l2[MAXM], type[MAXM]; char prim[MAXM];
		long m1[MAXM], m2[MAXM];
		vf_result core = { .lab = l1, .n = s->m, .ec = SCC_ER_OK }, res = { .lab = l2, .n = s->m, .ec = RES.ec };
		uint64_t h = (uint64_t) SHAPE[g];
		for (int j = 0; j < s->m; ++j) {
			const int p = ORD[FIRST[g] + j];
			long k = 0;
			if (CL1[p] < 0) l1[j] = -1; else { for (k = 0; k < core.K && m1[k] != CL1[p]; ++k) {} if (k == core.K) m1[core.K++] = CL1[p]; l1[j] = (int) k; }
			if (RES.ec != SCC_ER_OK || CL2[p] < 0) l2[j] = -1; else { for (k = 0; k < res.K && m2[k] != CL2[p]; ++k) {} if (k == res.K) m2[res.K++] = CL2[p]; l2[j] = (int) k; }
			prim[j] = some_primary ? (char) (s->prim >> j & 1) : 1;
			type[j] = O.num_types >= 2 ? (int) TL[p] : 0;
			h = vf_mix(h, (uint64_t) (l1[j] + 1) * 16 + (uint64_t) (l2[j] + 1));
		}
		if (!first_time(h)) continue;
		bad_group = g;
		if (core.K == 0) vf_fail("a group that has a solution has no cluster");
		vf_space sp = { .n = s->m, .coords = true, .dim = 1, .xy = (double*) s->x };
		vf_problem p = { &sp, &O, prim, O.num_types >= 2 ? type : NULL };
		vf_judge(&p, &core, &res, flags);
		vf_outcome(h);
	}
	bad_group = -1;
}

#ifndef PROP
#error PROP
#endif

#if PROP < 8 || PROP == 9
static void clusterings(void)
{
	const int flags = PROP == 1 ? OR_SIZE : PROP == 2 ? OR_SIZE | OR_TYPE | OR_CORE : PROP == 3 ? OR_COMPLETE : PROP == 4 ? OR_RADIUS : PROP == 6 ? OR_ASSIGN | OR_CORE : OR_FEASIBLE | OR_CORE;
	if (!choose_case(PROP == 2, true)) return;
	if (!vf_shard()) return;
	if (!choose_rest()) return;
	install();
	OC = O;
	OC.primary_unassigned_method = OC.secondary_unassigned_method = SCC_UM_IGNORE;
	OC.primary_radius = OC.seed_method == SCC_SM_BATCHES ? SCC_RM_USE_SEED_RADIUS : SCC_RM_NO_RADIUS;
	OC.secondary_radius = SCC_RM_NO_RADIUS;
	vf_run_sc(&MAGIC_SET, &WHOLE, &OC, &CORE);
	core_done = true;
	if (CORE.ec != SCC_ER_OK) vf_fail("%s, but the problem has a solution", vf_ecname(CORE.ec));
	vf_run_sc(&MAGIC_SET, &WHOLE, &O, &RES);
	res_done = true;
	if (open_objs) vf_fail("%ld search objects are left open", open_objs);
	judge_groups(flags);
	vf_state(vf_mix(case_hash(), vf_hash_result(&RES)));
	if (vf_want_sample()) vf_sample("every group is right by itself");
}

#if PROP == 9
/* only one group, or none, has a solution */
static void lone(void)
{
	static const mix wide = { "pairs too far apart", 2, 1, { 0 } };
	bad_group = -1; M = NULL; core_done = res_done = some_primary = false;
	vf_set_describe(describe);
	O = scc_get_default_options();
	O.size_constraint = 2;
	O.seed_method = (scc_SeedMethod) vf_choose(6);
	O.seed_radius = SCC_RM_USE_SUPPLIED; O.seed_supplied_radius = 2.0;
	if (O.seed_method == SCC_SM_BATCHES) { O.batch_size = vf_choose(2) ? 1000 : 0; O.primary_unassigned_method = SCC_UM_IGNORE; }
	const int G = vf_choose(2) ? 35000 : 2100;
	const int where = (int) vf_choose(5);
	if (!vf_shard()) return;
	build_groups(&wide, G, 0);
	WHOLE.n = n;
	const int ok = where == 0 ? -1 : where == 1 ? 0 : where == 2 ? G / 2 : where == 3 ? G - 1 : 32768 % G;
	for (int p = 0; p < n; ++p) if (SLOT[p] == 1 && GRP[p] != ok) X[p] = GAP * GRP[p] + 30.0;
	install();
	vf_run_sc(&MAGIC_SET, &WHOLE, &O, &RES);
	res_done = true;
	vf_validated();
	vf_state(vf_mix(case_hash(), (uint64_t) where));
	vf_outcome((uint64_t) RES.ec);
	if (where == 0 ? RES.ec != SCC_ER_NO_SOLUTION : RES.ec != SCC_ER_OK || RES.K != 1) vf_fail("%s, %ld clusters, where %d group has a solution", vf_ecname(RES.ec), RES.K, where != 0);
	for (int p = 0; p < n && where; ++p) if ((CL2[p] == 0) != (GRP[p] == ok)) vf_fail("point %d of group %d has label %d, the only solution is group %d", p, GRP[p], CL2[p], ok);
	if (open_objs) vf_fail("%ld search objects are left open", open_objs);
	if (vf_want_sample()) vf_sample("the only solution is found");
}
const vf_scenario vf_scenarios[] = { { "groups", clusterings, 0 }, { "one-solution", lone, 0 }, { 0 } };
#else
const vf_scenario vf_scenarios[] = { { "groups", clusterings, 0 }, { 0 } };
#endif

#elif PROP == 8
static scc_Clabel LAB[NMAX], GOT[NMAX];
static int cnt[NMAX + 1], par[NMAX + 1], left[NMAX + 1];
static void refine(void)
{
	bad_group = -1; M = NULL; core_done = res_done = some_primary = false;
	vf_set_describe(describe);
	const mix* mx = &MIX[vf_choose(NMIX)];
	const int size = (int) vf_choose(3), layout = (int) vf_choose(2);
	const uint32_t s = 2 + vf_choose(2);
	const bool batch = vf_choose(2);
	const int from = (int) vf_choose(4); /* groups, groups without some points, three unions of groups, nothing */
	if (from == 3 && size == 2) return;
	if (!vf_shard()) return;
	build_groups(mx, size == 0 ? 1100 : size == 1 ? 4000 : 66000, layout);
	install();
	O = scc_get_default_options(); O.size_constraint = s; O.batch_size = batch;
	scc_Clustering* c = NULL;
	const int K = from == 2 ? (size == 2 ? ngroups / 7 + 1 : 3) : from == 3 ? 0 : ngroups;
	for (int p = 0; p < n; ++p) LAB[p] = from == 1 && (p % 11 == 3) ? SCC_CLABEL_NA : (scc_Clabel) (from == 2 ? (size == 2 ? GRP[p] / 7 : GRP[p] % 3) : GRP[p]);
	if ((from == 3 ? scc_init_empty_clustering((uint64_t) n, NULL, &c) : scc_init_existing_clustering((uint64_t) n, (uint64_t) K, LAB, true, &c)) != SCC_ER_OK) vf_fail("could not make a clustering");
	vf_transition();
	const scc_ErrorCode ec = scc_hierarchical_clustering(&MAGIC_SET, s, batch, c);
	vf_transition();
	if (ec != SCC_ER_OK) vf_fail("%s", vf_ecname(ec));
	uint64_t nK = 0;
	if (scc_get_clustering_info(c, NULL, &nK) != SCC_ER_OK || nK > (uint64_t) n || scc_get_cluster_labels(c, (size_t) n, GOT) != SCC_ER_OK) vf_fail("no labels, %lu clusters", (unsigned long) nK);
	scc_free_clustering(&c);
	memset(cnt, 0, sizeof(int) * (size_t) (n + 1)); memset(left, 0, sizeof(int) * (size_t) (n + 1));
	for (uint64_t k = 0; k < nK; ++k) par[k] = -1;
	for (int p = 0; p < n; ++p) {
		const int old = from == 3 ? 0 : vf_lab(LAB[p]), now = vf_lab(GOT[p]);
		if ((old < 0) != (now < 0)) vf_fail("point %d was in cluster %d and is in %d", p, old, now);
		if (now < 0) { if (now != -1) vf_fail("point %d has an impossible label", p); continue; }
		if ((uint64_t) now >= nK) vf_fail("point %d has label %d of %lu clusters", p, now, (unsigned long) nK);
		++left[old]; ++cnt[now];
		if (par[now] < 0) par[now] = old; else if (par[now] != old) vf_fail("cluster %d has points of the existing clusters %d and %d", now, par[now], old);
	}
	for (uint64_t k = 0; k < nK; ++k) {
		if (!cnt[k]) vf_fail("cluster %lu is empty", (unsigned long) k);
		const int m = left[par[k]];
		if (m < 2 * (int) s ? cnt[k] != m : cnt[k] < (int) s || cnt[k] >= 2 * (int) s) vf_fail("cluster %lu has %d of the %d points of an existing cluster, the size is %u", (unsigned long) k, cnt[k], m, s);
	}
	vf_validated();
	if (open_objs) vf_fail("%ld search objects are left open", open_objs);
	uint64_t h = vf_mix(vf_mix((uint64_t) n, nK), (uint64_t) from * 8 + s * 2 + batch);
	vf_outcome(h); vf_state(vf_mix(h, (uint64_t) layout));
	if (vf_want_sample()) vf_sample("sizes and parents are right");
}
const vf_scenario vf_scenarios[] = { { "refinement", refine, 0 }, { 0 } };

#elif PROP == 13 || PROP == 14
static scc_Clabel LAB[NMAX];
static int cnt[NMAX + 1];
static void labelled(void)
{
	bad_group = -1; M = NULL; core_done = res_done = some_primary = false;
	vf_set_describe(describe);
	const mix* mx = &MIX[1 + vf_choose(2) * 4]; /* of 3 and 2, or of 5, 7 and 6 */
	const int size = (int) vf_choose(2), layout = (int) vf_choose(2), dev = (int) vf_choose(8);
	const int where = (int) vf_choose(dev ? 4 : 1);
	if (!vf_shard()) return;
	build_groups(mx, size ? 66000 : 1100, layout);
	if (n > NMAX) vf_error("too many");
	install();
	int K = ngroups;
	const int p = where == 0 ? 0 : where == 1 ? n - 1 : where == 2 ? 65535 % n : 65536 % n;
	for (int i = 0; i < n; ++i) LAB[i] = (scc_Clabel) GRP[i];
	switch (dev) {
	case 1: LAB[p] = (scc_Clabel) K; break;                              /* out of range */
	case 2: LAB[p] = SCC_CLABEL_NA; break;                               /* unassigned */
	case 3: for (int i = 0; i < n; ++i) if (GRP[i] == GRP[p]) LAB[i] = SCC_CLABEL_NA; break; /* an empty cluster */
	case 4: ++K; break;                                                  /* an empty one at the end */
	case 5: LAB[p] = (scc_Clabel) ((GRP[p] + 1) % K); break;             /* moved to the next */
	case 6: LAB[p] = (scc_Clabel) ((GRP[p] + 65536) % K); break;
	case 7: for (int i = 0; i < n; ++i) LAB[i] = (scc_Clabel) 0; K = 1 + where; if (PROP == 14 && n > 4000) return; break; /* everything in one */
	}
	bool inside = true;
	memset(cnt, 0, sizeof cnt);
	int assigned = 0, smallest = n, largest = 0, populated = 0;
	for (int i = 0; i < n; ++i) { const int l = vf_lab(LAB[i]); if (l == -1) continue; if (l < 0 || l >= K) inside = false; else { ++cnt[l]; ++assigned; } }
	for (int k = 0; k < K; ++k) { if (cnt[k] && cnt[k] < smallest) smallest = cnt[k]; if (cnt[k] > largest) largest = cnt[k]; populated += cnt[k] > 0; }
	scc_Clustering* c = NULL;
	if (scc_init_existing_clustering((uint64_t) n, (uint64_t) K, LAB, true, &c) != SCC_ER_OK) vf_fail("could not make a clustering");
	vf_transition();
	uint64_t h = vf_mix(vf_mix((uint64_t) n, (uint64_t) dev), (uint64_t) (where * 2 + layout));
#if PROP == 13
	for (uint32_t s = 1; s <= 8; ++s) for (int prim = 0; prim < 2; ++prim) {
		O = scc_get_default_options();
		O.size_constraint = s < 2 ? 2 : s;
		if (prim) { size_t k = 0; for (int i = 0; i < n; ++i) if (i != p) PRIM[k++] = (scc_PointIndex) i; O.primary_data_points = PRIM; O.len_primary_data_points = k; }
		if (O.size_constraint > (uint32_t) n) continue;
		bool ok = !inside, want = inside && populated == K && smallest >= (int) O.size_constraint;
		for (int i = 0; i < n && want; ++i) if (vf_lab(LAB[i]) == -1 && prim && i != p) want = false;
		/* a type that the point alone has */
		static uint32_t tc[2];
		if (s == 1) {
			tc[0] = 2; tc[1] = 0;
			O.num_types = 2; O.type_constraints = tc; O.type_labels = TL; O.len_type_labels = (size_t) n;
			for (int i = 0; i < n; ++i) TL[i] = (scc_TypeLabel) (SLOT[i] == 0 && i == p);
			for (int k = 0; k < K && want; ++k) if (cnt[k] - (vf_lab(LAB[p]) == k && SLOT[p] == 0) < 2) want = false;
		}
		const scc_ErrorCode ec = scc_check_clustering(c, &O, &ok);
		vf_transition();
		vf_validated();
		if (ec != SCC_ER_OK) vf_fail("%s", vf_ecname(ec));
		if (ok != want) vf_fail("checking says %d, a direct count %d (deviation %d at point %d, size %u, %d clusters)", ok, want, dev, p, O.size_constraint, K);
		vf_outcome((uint64_t) ok); vf_state(vf_mix(h, s * 4 + (uint64_t) prim * 2 + ok));
	}
#else
	scc_ClusteringStats st;
	memset(&st, 0x55, sizeof st);
	const scc_ErrorCode ec = scc_get_clustering_stats(&MAGIC_SET, c, &st);
	vf_transition();
	vf_validated();
	vf_state(h);
	if (!inside) { if (ec != SCC_ER_INVALID_INPUT) vf_fail("%s for labels out of range", vf_ecname(ec)); }
	else {
		if (ec != SCC_ER_OK) vf_fail("%s", vf_ecname(ec));
		/* members by cluster */
		int* at = calloc((size_t) K + 1, sizeof(int)); int* mem = malloc(sizeof(int) * (size_t) n);
		for (int k = 0; k < K; ++k) at[k + 1] = at[k] + cnt[k];
		int* fill = malloc(sizeof(int) * (size_t) (K + 1));
		memcpy(fill, at, sizeof(int) * (size_t) (K + 1));
		for (int i = 0; i < n; ++i) { const int l = vf_lab(LAB[i]); if (l >= 0) mem[fill[l]++] = i; }
		double sum = 0, mn = INFINITY, mx2 = 0, amin = 0, amax = 0, aw = 0, au = 0;
		for (int k = 0; k < K; ++k) {
			if (cnt[k] == 0) continue;
			double lmin = cnt[k] > 1 ? INFINITY : 0.0, lmax = 0, ls = 0; long m = 0;
			for (int a = at[k]; a < at[k + 1]; ++a) for (int b = a + 1; b < at[k + 1]; ++b) { const double d = fabs(X[mem[a]] - X[mem[b]]); ls += d; ++m; if (d < lmin) lmin = d; if (d > lmax) lmax = d; }
			if (cnt[k] > 1) { sum += ls; if (lmin < mn) mn = lmin; if (lmax > mx2) mx2 = lmax; amin += lmin; amax += lmax; aw += (double) cnt[k] * ls / (double) m; au += ls / (double) m; }
		}
		amin /= populated; amax /= populated; aw /= assigned; au /= populated;
		#define SAME(a, b) (fabs((a) - (b)) <= 1e-9 * (1 + fabs(b)))
		const bool singles = smallest == 1;
		if (st.num_data_points != (uint64_t) n || st.num_assigned != (uint64_t) assigned || st.num_clusters != (uint64_t) K || st.num_populated_clusters != (uint64_t) populated) vf_fail("counts: %lu points, %lu assigned, %lu clusters, %lu populated", (unsigned long) st.num_data_points, (unsigned long) st.num_assigned, (unsigned long) st.num_clusters, (unsigned long) st.num_populated_clusters);
		if (st.min_cluster_size != (uint64_t) smallest || st.max_cluster_size != (uint64_t) largest || !SAME(st.avg_cluster_size, (double) assigned / populated)) vf_fail("sizes: %lu to %lu, mean %g", (unsigned long) st.min_cluster_size, (unsigned long) st.max_cluster_size, st.avg_cluster_size);
		if (!SAME(st.sum_dists, sum) || !SAME(st.max_dist, mx2) || (!singles && !SAME(st.min_dist, mn))) vf_fail("distances: sum %g (%g), smallest %g (%g), largest %g (%g)", st.sum_dists, sum, st.min_dist, mn, st.max_dist, mx2);
		if (!singles && (!SAME(st.avg_min_dist, amin) || !SAME(st.avg_max_dist, amax) || !SAME(st.avg_dist_weighted, aw) || !SAME(st.avg_dist_unweighted, au))) vf_fail("averages: %g (%g), %g (%g), %g (%g), %g (%g)", st.avg_min_dist, amin, st.avg_max_dist, amax, st.avg_dist_weighted, aw, st.avg_dist_unweighted, au);
		vf_outcome(vf_mix((uint64_t) (sum * 4), (uint64_t) assigned));
		free(at); free(mem); free(fill);
	}
#endif
	scc_free_clustering(&c);
	if (vf_want_sample()) vf_sample("agrees with the direct count");
}
const vf_scenario vf_scenarios[] = { { "labels", labelled, 0 }, { 0 } };

#elif PROP == 20 || PROP == 21 || PROP == 22
static void again(void)
{
	if (!choose_case(false, PROP != 20)) return;
	if (PROP == 20 && O.seed_method != SCC_SM_LEXICAL) return;
	if (!vf_shard()) return;
	O.primary_radius = O.secondary_radius = SCC_RM_USE_SEED_RADIUS;
	O.primary_unassigned_method = vf_choose(2) ? SCC_UM_ANY_NEIGHBOR : SCC_UM_IGNORE;
	O.secondary_unassigned_method = (PROP == 20 || O.seed_method == SCC_SM_BATCHES || !vf_choose(2)) ? SCC_UM_IGNORE : SCC_UM_CLOSEST_SEED;
	install();
	vf_al.fill = -1;
	vf_run_sc(&MAGIC_SET, &WHOLE, &O, &CORE);
	core_done = true;
	const uint64_t h = vf_hash_result(&CORE);
	vf_state(vf_mix(case_hash(), h)); vf_outcome(h);
#if PROP == 22
	vf_digest(vf_mix(case_hash(), h)); vf_validated();
#elif PROP == 21
	static const int fills[] = { 0, 0xff, 0x5a, 256 + 1, 512 + 1 };
	for (int f = 0; f < 5; ++f) {
		vf_al.fill = fills[f];
		vf_run_sc(&MAGIC_SET, &WHOLE, &O, &RES);
		res_done = true;
		if (vf_hash_result(&RES) != h) vf_fail("the same call gives another result with other contents of fresh memory");
		vf_validated();
	}
	vf_al.fill = -1;
#else
	static const uint32_t bs[] = { 0, 7, 1000, 1024, 65535, 65536, 65537, 100000, UINT32_MAX };
	static int map[NMAX + 1];
	O.seed_method = SCC_SM_BATCHES;
	for (int b = -1; b < 9; ++b) {
		O.batch_size = b < 0 ? 1 : bs[b];
		if (b == -1 && n > 10000) continue;
		vf_run_sc(&MAGIC_SET, &WHOLE, &O, &RES);
		res_done = true;
		if (RES.ec != CORE.ec || RES.K != CORE.K) vf_fail("%s, %ld clusters in batches of %u; lexical %s, %ld", vf_ecname(RES.ec), RES.K, O.batch_size, vf_ecname(CORE.ec), CORE.K);
		for (long k = 0; k < RES.K; ++k) map[k] = -1;
		for (int p = 0; p < n; ++p) {
			bad_group = GRP[p];
			if ((CL1[p] < 0) != (CL2[p] < 0)) vf_fail("point %d is assigned in only one of them (batches of %u)", p, O.batch_size);
			if (CL2[p] < 0) continue;
			if (CL2[p] >= RES.K) vf_fail("label out of range");
			if (O.primary_unassigned_method != SCC_UM_IGNORE) continue;
			if (map[CL2[p]] < 0) map[CL2[p]] = CL1[p];
			if (map[CL2[p]] != CL1[p]) vf_fail("point %d is in another cluster (batches of %u)", p, O.batch_size);
		}
		bad_group = -1;
		vf_validated();
	}
#endif
	if (open_objs) vf_fail("%ld search objects are left open", open_objs);
	if (vf_want_sample()) vf_sample("the same result");
}
const vf_scenario vf_scenarios[] = { { "groups", again, 0 }, { 0 } };
#endif
