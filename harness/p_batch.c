/* PROP 20: clustering in batches. The batch size only trades memory for time, and the result is the
 * clustering that the lexical method gives on the same problem. */
#include "spaces.h"

const int vf_watchdog_seconds = 60;

typedef struct { spacecfg sp; int sz_hi; int prim; bool all_sizes; } cfg;

static scc_ClusterOptions O;
static scc_PointIndex PRIM[BIGN];
static int LA[BIGN], LB[BIGN], LC[BIGN], LD[BIGN];
static vf_result A = { .lab = LA }, R = { .lab = LB }, LEX = { .lab = LC }, LEXA = { .lab = LD };
static bool doneA, doneR, doneL;
static unsigned bsz;

static void describe(void)
{
	note_space();
	vf_note_options(&O, S.n);
	if (doneA) { vf_note("in one batch: %s, %ld clusters ", vf_ecname(A.ec), A.K); vf_note_labels("labels", A.lab, S.n); }
	if (doneR) { vf_note("with batch size %u: %s, %ld clusters ", bsz, vf_ecname(R.ec), R.K); vf_note_labels("labels", R.lab, S.n); }
	if (doneL) { vf_note("lexical: %s, %ld clusters ", vf_ecname(LEX.ec), LEX.K); vf_note_labels("labels", LEX.lab, S.n); }
}

/* clusters numbered by their first member */
static void canon(vf_result* r)
{
	static int map[BIGN + 1];
	int next = 0;
	for (long k = 0; k < r->K && k < BIGN; ++k) map[k] = -1;
	for (int i = 0; i < r->n; ++i) if (r->lab[i] >= 0) {
		if (r->lab[i] >= r->K) vf_fail("label %d out of range", r->lab[i]);
		if (map[r->lab[i]] < 0) map[r->lab[i]] = next++;
		r->lab[i] = map[r->lab[i]];
	}
}

static bool same(const vf_result* a, const vf_result* b)
{
	return a->ec == b->ec && a->K == b->K && memcmp(a->lab, b->lab, sizeof(int) * (size_t) a->n) == 0;
}

static void explore(const cfg* c)
{
	vf_set_describe(describe);
	doneA = doneR = doneL = false;
	if (!choose_space(&c->sp)) return;
	const int p0 = vf_pos();
	const bool large = c->sp.kind == K_LARGE;
	if (!large && !vf_shard()) return;
	if (!large && vf_fresh(p0)) setup_space();
	O = scc_get_default_options();
	if (c->sz_hi > S.n && S.n < 2) return;
	O.size_constraint = (uint32_t) vf_range(2, c->sz_hi < S.n ? c->sz_hi : S.n);
	const unsigned r = vf_choose((unsigned) nrad + 1);
	if (r < (unsigned) nrad) { O.seed_radius = SCC_RM_USE_SUPPLIED; O.seed_supplied_radius = radlist[r]; }
	size_t k = 0;
	unsigned set = 0;
	if (large) {
		set = vf_choose(5);
		for (int i = 0; i < S.n; ++i) if (set == 1 ? i % 3 != 0 : set == 2 ? i >= S.n / 2 : set == 3 ? (i % 29 == 0 || i > S.n - 3) : set == 4 ? i % 10 > 6 : false) PRIM[k++] = (scc_PointIndex) i;
	} else if (c->prim) {
		set = vf_choose(1u << S.n);
		for (int i = 0; i < S.n; ++i) if (set >> i & 1) PRIM[k++] = (scc_PointIndex) i;
	}
	if (set) { O.primary_data_points = PRIM; O.len_primary_data_points = k; }
	O.primary_unassigned_method = vf_choose(2) ? SCC_UM_ANY_NEIGHBOR : SCC_UM_IGNORE;
	if (large) { if (!vf_shard()) return; setup_space(); }
	O.seed_method = SCC_SM_BATCHES;
	O.batch_size = 0;
	vf_run_sc(dataset(), &S, &O, &A);
	canon(&A);
	doneA = true;
	static const uint32_t some[] = { 1, 2, 3, 7, 29, 100, 512 };
	const unsigned nb = large ? 12 : (unsigned) S.n + 3;
	for (unsigned i = 0; i < nb; ++i) {
		if (large) bsz = i < 7 ? some[i] : i == 7 ? (unsigned) S.n / 2 : i == 8 ? (unsigned) S.n - 1 : i == 9 ? (unsigned) S.n : i == 10 ? (unsigned) S.n + 1 : UINT32_MAX;
		else bsz = i < (unsigned) S.n + 2 ? i + 1 : UINT32_MAX;
		O.batch_size = bsz;
		vf_run_sc(dataset(), &S, &O, &R);
		canon(&R);
		doneR = true;
		if (!same(&A, &R)) vf_fail("the batch size changes the clustering");
		vf_validated();
	}
	/* lexical seeds on the whole graph */
	O.seed_method = SCC_SM_LEXICAL;
	O.batch_size = 0;
	vf_run_sc(dataset(), &S, &O, &LEX);
	canon(&LEX);
	doneL = true;
	if (LEX.ec != A.ec || LEX.K != A.K) vf_fail("lexical seeds give another number of clusters");
	if (O.primary_unassigned_method == SCC_UM_IGNORE) {
		if (!same(&LEX, &A)) vf_fail("lexical seeds give another clustering");
	} else {
		/* every neighborhood of a seed is the same, and the same points are assigned */
		for (int i = 0; i < S.n; ++i) if ((LEX.lab[i] < 0) != (A.lab[i] < 0)) vf_fail("point %d is assigned in only one of them", i);
		O.primary_unassigned_method = SCC_UM_IGNORE;
		vf_run_sc(dataset(), &S, &O, &LEXA);
		/* labels of one core cluster stay together */
		static int map[BIGN + 1];
		for (long q = 0; q < LEXA.K; ++q) map[q] = -1;
		for (int i = 0; i < S.n; ++i) if (LEXA.lab[i] >= 0) {
			if (map[LEXA.lab[i]] < 0) map[LEXA.lab[i]] = A.lab[i];
			if (map[LEXA.lab[i]] != A.lab[i]) vf_fail("point %d left the cluster of its seed", i);
		}
		for (long q = 0; q < LEXA.K; ++q) for (long t = 0; t < q && !large; ++t) if (map[q] == map[t]) vf_fail("two seeds share a cluster");
		O.primary_unassigned_method = SCC_UM_ANY_NEIGHBOR;
	}
	vf_validated();
	uint64_t h = vf_mix(hash_space(), vf_hash_result(&A));
	h = vf_mix(h, (uint64_t) O.size_constraint * 64 + r * 4 + (uint64_t) O.primary_unassigned_method);
	vf_state(vf_mix(h, set));
	vf_outcome(vf_hash_result(&A));
	if (vf_want_sample()) vf_sample("every batch size gives the same clustering");
}

#define SC(name, ...) static void name(void) { static const cfg c = { __VA_ARGS__ }; explore(&c); }
/*      kind      n     lv tb  size prim */
SC(s1, { K_WEAK,   2, 4, 6, 3 }, 4, 1)
SC(s2, { K_LEVELS, 5, 5, 3, 1 }, 5, 0)
SC(s3, { K_LEVELS, 3, 4, 4, 3 }, 4, 1)
SC(s4, { K_GRID1,  5, 6, 3, 1 }, 4, 1)
SC(s5, { K_LARGE,  0, 0, 0, 1 }, 5, 1)
SC(s6, { K_GRID1,  7, 7, 4, 1 }, 3, 0)
SC(s7, { K_LEVELS, 5, 5, 2, 2 }, 3, 1)
SC(s8, { K_GRID2,  5, 5, 3, 1 }, 3, 0)
SC(t1, { K_LEVELS, 5, 5, 3, 2 }, 5, 1)
SC(t2, { K_GRID1,  8, 8, 3, 1 }, 5, 1)
SC(t3, { K_LEVELS, 6, 6, 2, 3 }, 6, 1)
SC(z1, { K_LEVELS, 3, 4, 3, 2, 1 }, 3, 1)
SC(z2, { K_GRID1,  5, 5, 3, 1, 1 }, 3, 1)
const vf_scenario vf_scenarios[] = { { "weak-orders", s1, 0 }, { "levels5", s2, 0 }, { "identical-points", s3, 0 }, { "grid", s4, 0 }, { "large", s5, 0 }, { "grid7", s6, 0 }, { "levels5-primary", s7, 0 }, { "grid2d", s8, 0 }, { "levels5-all", t1, 1 }, { "grid8", t2, 1 }, { "levels6", t3, 1 }, { "scaled", z1, 0 }, { "scaled-grid", z2, 0 }, { 0 } };
