/* Exhaustive exploration of scc_hierarchical_clustering. PROP 8: structure of the result.
 * PROP 24: the result can be produced by the greedy splitting rule. */
#include "spaces.h"

const int vf_watchdog_seconds = 40;

typedef struct {
	spacecfg sp;
	int sz_lo, sz_hi;
	int existing;  /* 0 none, otherwise largest number of existing clusters; -1: made by scc_sc_clustering */
} cfg;

static int OLD[BIGN], NEW[BIGN];
static int oldK, newK, sz, batch, copy;
static bool done;
static scc_Clabel LAB[BIGN];
static scc_Clustering* CL;

static void describe(void)
{
	note_space();
	vf_note("size=%d batch_assign=%d ", sz, batch);
	if (oldK) { vf_note("existing clusters=%d (%s) ", oldK, copy ? "copied" : "shared"); vf_note_labels("existing", OLD, S.n); }
	if (done) { vf_note("new clusters=%d ", newK); vf_note_labels("labels", NEW, S.n); }
}

/* ---- greedy splitting rule as a nondeterministic model over bit masks (n <= 10) ---- */
typedef unsigned mask;
static int nblocks;
static mask blocks[16];

static bool ok_partition(mask m);

static bool respects(mask a)
{
	for (int b = 0; b < nblocks; ++b) if ((blocks[b] & a) && (blocks[b] & ~a)) return false;
	return true;
}

static double kdist(int c, mask free_, int k)
{
	double d[16]; int m = 0;
	for (int v = 0; v < S.n; ++v) if (free_ & (1u << v)) d[m++] = vf_dist(&S, c, v);
	for (int i = 1; i < m; ++i) { double x = d[i]; int j = i; for (; j > 0 && d[j - 1] > x; --j) d[j] = d[j - 1]; d[j] = x; }
	return d[k - 1];
}

typedef struct { int c1, c2; } centers;
static bool grow(centers c, mask a, mask b, mask left, int stage);

/* give the k points nearest to center c out of left to one part, for every way to break ties */
static bool take(centers c, mask a, mask b, mask left, int k, int which, int stage, int from)
{
	if (k == 0) return grow(c, a, b, left, stage);
	const int ctr = which ? c.c2 : c.c1;
	double best = INFINITY;
	for (int v = 0; v < S.n; ++v) if ((left & (1u << v)) && vf_dist(&S, ctr, v) < best) best = vf_dist(&S, ctr, v);
	bool anybelow = false;
	for (int v = 0; v < S.n; ++v) {
		if (!(left & (1u << v)) || vf_dist(&S, ctr, v) != best) continue;
		/* tied points in ascending order only: the order among them does not matter */
		if (v < from) { anybelow = true; continue; }
		const mask bit = 1u << v;
		if (take(c, which ? a : (a | bit), which ? (b | bit) : b, left & ~bit, k - 1, which, stage, v + 1)) return true;
	}
	(void) anybelow;
	return false;
}

static bool take0(centers c, mask a, mask b, mask left, int k, int which, int stage)
{
	/* ascending order applies within one tie class; split the k points by tie class */
	const int ctr = which ? c.c2 : c.c1;
	double best = INFINITY; int cls = 0;
	for (int v = 0; v < S.n; ++v) if (left & (1u << v)) {
		const double d = vf_dist(&S, ctr, v);
		if (d < best) { best = d; cls = 1; } else if (d == best) ++cls;
	}
	if (k > cls) {
		mask all = 0;
		for (int v = 0; v < S.n; ++v) if ((left & (1u << v)) && vf_dist(&S, ctr, v) == best) all |= 1u << v;
		return take0(c, which ? a : (a | all), which ? (b | all) : b, left & ~all, k - cls, which, stage);
	}
	return take(c, a, b, left, k, which, stage, 0);
}

static bool grow(centers c, mask a, mask b, mask left, int stage)
{
	if (stage == 0) {
		const double d1 = kdist(c.c1, left, sz - 1), d2 = kdist(c.c2, left, sz - 1);
		return take0(c, a, b, left, sz - 1, d1 >= d2 ? 0 : 1, d1 >= d2 ? 1 : 2);
	}
	if (stage == 1) return take0(c, a, b, left, sz - 1, 1, 3);
	if (stage == 2) return take0(c, a, b, left, sz - 1, 0, 3);
	if (left == 0) return respects(a) && ok_partition(a) && ok_partition(b);
	int k = 1;
	if (batch) { k = __builtin_popcount(left); if (k > sz) k = sz; }
	return take0(c, a, b, left, k, kdist(c.c1, left, k) <= kdist(c.c2, left, k) ? 0 : 1, 3);
}

static bool ok_partition(mask m)
{
	if (__builtin_popcount(m) < 2 * sz) {
		for (int b = 0; b < nblocks; ++b) if (blocks[b] == m) return true;
		return false;
	}
	double ecc[16], diam = 0.0;
	for (int v = 0; v < S.n; ++v) if (m & (1u << v)) {
		ecc[v] = 0.0;
		for (int w = 0; w < S.n; ++w) if ((m & (1u << w)) && vf_dist(&S, v, w) > ecc[v]) ecc[v] = vf_dist(&S, v, w);
		if (ecc[v] > diam) diam = ecc[v];
	}
	for (int v = 0; v < S.n; ++v) for (int w = 0; w < S.n; ++w) {
		if (v == w || !(m & (1u << v)) || !(m & (1u << w))) continue;
		const double d = vf_dist(&S, v, w);
		/* centers are farthest from each other; any two points if all are at the same place */
		if (diam > 0.0 && (d < ecc[v] || d < ecc[w])) continue;
		if (grow((centers) { v, w }, 1u << v, 1u << w, m & ~(1u << v) & ~(1u << w), 0)) return true;
	}
	return false;
}

#if PROP == 24
/* ---- the same rule for many points, where ties are rare: with a tie the outcome is left open ---- */
typedef struct { double d; int v; } cand;
static int cmp_cand(const void* a, const void* b) { const double x = ((const cand*) a)->d, y = ((const cand*) b)->d; return x < y ? -1 : x > y; }

static bool big_ok(const int m[], int len);

/* the distance of the kth free point of a sorted list, and whether another one could be chosen for it */
static double big_kdist(const cand l[], int len, const char taken[], int k, bool* tie)
{
	int i = 0, last = 0;
	for (; i < len && k > 0; ++i) if (!taken[l[i].v]) { last = i; --k; }
	for (; i < len && taken[l[i].v]; ++i) {}
	*tie = (i < len && l[i].d == l[last].d);
	return l[last].d;
}

static void big_take(const cand l[], int len, char taken[], int k, char side)
{
	for (int i = 0; i < len && k > 0; ++i) if (!taken[l[i].v]) { taken[l[i].v] = side; --k; }
}

/* 1: splitting around c1 and c2 can lead to the result, 0: it cannot, 2: open because of ties */
static int big_split(const int m[], int len, int c1, int c2)
{
	cand* l1 = malloc(sizeof(cand[len])); cand* l2 = malloc(sizeof(cand[len]));
	char* taken = calloc((size_t) S.n, 1);
	int res = 1, left = len - 2 * sz;
	for (int i = 0; i < len; ++i) { l1[i] = (cand) { vf_dist(&S, c1, m[i]), m[i] }; l2[i] = (cand) { vf_dist(&S, c2, m[i]), m[i] }; }
	qsort(l1, (size_t) len, sizeof(cand), cmp_cand); qsort(l2, (size_t) len, sizeof(cand), cmp_cand);
	taken[c1] = 1; taken[c2] = 2;
	bool t1, t2;
	double d1 = big_kdist(l1, len, taken, sz - 1, &t1), d2 = big_kdist(l2, len, taken, sz - 1, &t2);
	if (t1 || t2 || d1 == d2) res = 2;
	else {
		const bool first = d1 > d2;
		big_take(first ? l1 : l2, len, taken, sz - 1, first ? 1 : 2);
		(void) big_kdist(first ? l2 : l1, len, taken, sz - 1, &t1);
		if (t1) res = 2;
		big_take(first ? l2 : l1, len, taken, sz - 1, first ? 2 : 1);
	}
	while (res == 1 && left > 0) {
		const int k = !batch ? 1 : left < sz ? left : sz;
		d1 = big_kdist(l1, len, taken, k, &t1); d2 = big_kdist(l2, len, taken, k, &t2);
		if (k == left) t1 = t2 = false;
		if (t1 || t2 || d1 == d2) { res = 2; break; }
		big_take(d1 < d2 ? l1 : l2, len, taken, k, d1 < d2 ? 1 : 2);
		left -= k;
	}
	if (res == 1) {
		int* part[2] = { malloc(sizeof(int[len])), malloc(sizeof(int[len])) };
		int np[2] = { 0, 0 };
		char* side = calloc((size_t) newK + 1, 1);
		for (int i = 0; i < len; ++i) {
			const char t = taken[m[i]];
			if (side[NEW[m[i]]] && side[NEW[m[i]]] != t) res = 0;
			side[NEW[m[i]]] = t;
			part[t - 1][np[t - 1]++] = m[i];
		}
		free(side);
		if (res) res = big_ok(part[0], np[0]) && big_ok(part[1], np[1]);
		free(part[0]); free(part[1]);
	}
	free(l1); free(l2); free(taken);
	return res;
}

static bool big_ok(const int m[], int len)
{
	if (len < 2 * sz) {
		for (int i = 1; i < len; ++i) if (NEW[m[i]] != NEW[m[0]]) return false;
		return true;
	}
	double* ecc = calloc((size_t) len, sizeof(double));
	for (int i = 0; i < len; ++i) for (int j = i + 1; j < len; ++j) {
		const double d = vf_dist(&S, m[i], m[j]);
		if (d > ecc[i]) ecc[i] = d;
		if (d > ecc[j]) ecc[j] = d;
	}
	int tried = 0;
	bool found = false, open = false;
	for (int i = 0; i < len && !found; ++i) for (int j = i + 1; j < len && !found; ++j) {
		const double d = vf_dist(&S, m[i], m[j]);
		if (d < ecc[i] || d < ecc[j]) continue;
		if (++tried > 50) { open = true; continue; }
		const int r = big_split(m, len, m[i], m[j]);
		if (r == 1) found = true; else if (r == 2) open = true;
	}
	free(ecc);
	return found || open;
}
#endif

static void judge(void)
{
	static int size_old[BIGN + 16], size_new[BIGN + 16], parent[BIGN + 16];
	vf_validated();
	for (int i = 0; i <= S.n + oldK; ++i) { size_old[i] = size_new[i] = 0; parent[i] = -2; }
	for (int i = 0; i < S.n; ++i) {
		if (oldK && (OLD[i] < 0) != (NEW[i] < 0)) vf_fail("point %d was %s and is %s", i, OLD[i] < 0 ? "unassigned" : "assigned", NEW[i] < 0 ? "unassigned" : "assigned");
		if (NEW[i] < 0 && OLD[i] >= 0) vf_fail("point %d is unassigned", i);
		if (NEW[i] < -1 || NEW[i] >= newK) vf_fail("point %d has label %d of %d clusters", i, NEW[i], newK);
		if (OLD[i] >= 0) ++size_old[OLD[i]];
		if (NEW[i] >= 0) {
			++size_new[NEW[i]];
			if (parent[NEW[i]] == -2) parent[NEW[i]] = OLD[i];
			else if (parent[NEW[i]] != OLD[i]) vf_fail("cluster %d has points from the existing clusters %d and %d", NEW[i], parent[NEW[i]], OLD[i]);
		}
	}
	for (int k = 0; k < newK; ++k) {
		if (size_new[k] == 0) vf_fail("cluster %d of %d is empty", k, newK);
		const int m = size_old[parent[k]];
		if (m < 2 * sz) { if (size_new[k] != m) vf_fail("an existing cluster of %d points, too small to be split, was split", m); }
		else if (size_new[k] < sz || size_new[k] >= 2 * sz) vf_fail("cluster %d has %d points, outside [%d, %d]", k, size_new[k], sz, 2 * sz - 1);
	}
#if PROP == 24
	for (int o = 0; o < (oldK ? oldK : 1); ++o) {
		if (S.n > 16) {
			static int all[BIGN];
			int len = 0;
			for (int i = 0; i < S.n; ++i) if (OLD[i] == o) all[len++] = i;
			if (len && !big_ok(all, len)) vf_fail("no sequence of splits around two points that are farthest from each other gives these clusters (existing cluster %d)", o);
			continue;
		}
		mask m = 0;
		nblocks = 0;
		for (int i = 0; i < S.n; ++i) if (OLD[i] == o) m |= 1u << i;
		if (m == 0) continue;
		for (int k = 0; k < newK; ++k) if (parent[k] == o) {
			mask b = 0;
			for (int i = 0; i < S.n; ++i) if (NEW[i] == k) b |= 1u << i;
			blocks[nblocks++] = b;
		}
		if (!ok_partition(m)) vf_fail("no sequence of splits around two points that are farthest from each other gives these clusters");
	}
#endif
}

static void* dset(void) { return S.coords ? (void*) DS : (void*) &B; }

static uint64_t sph;

static void explore(const cfg* c)
{
	done = false; oldK = 0;
	vf_set_describe(describe);
	if (!choose_space(&c->sp)) return;
	const int p0 = vf_pos();
	if (c->sp.kind != K_LARGE && !vf_shard()) return;
	if (c->sp.kind != K_LARGE && vf_fresh(p0)) { setup_space(); sph = hash_space(); }
	int hi = c->sz_hi;
	if (hi > S.n) hi = S.n;
	if (c->sz_lo == 0) {
		const int some[] = { 7, 10, 16, S.n / 4, S.n / 3, S.n / 2 - 1, S.n / 2, S.n / 2 + 1, S.n - 1, S.n };
		sz = some[vf_choose(10)];
	} else {
		if (hi < c->sz_lo) return;
		sz = vf_range(c->sz_lo, hi);
	}
	batch = (int) vf_choose(2);
	copy = 1;
	int n = S.n;
	for (int i = 0; i < n; ++i) OLD[i] = 0;
	if (c->existing > 0) {
		copy = (int) vf_choose(2);
		if (c->sp.kind == K_LARGE) {
			static const int ks[] = { 1, 3, 7 };
			oldK = ks[vf_choose(3)];
			const int lay = (int) vf_choose(3);
			for (int i = 0; i < n; ++i) OLD[i] = lay == 0 ? i % oldK : lay == 1 ? (i * oldK) / n : ((i % 11 == 0) ? -1 : (i < n * 3 / 4 ? 0 : i % oldK));
		} else {
			oldK = vf_range(1, c->existing);
			for (int i = 0; i < n; ++i) OLD[i] = (int) vf_choose((unsigned) oldK + 1) - 1;
		}
		bool any = false;
		for (int i = 0; i < n; ++i) any = any || OLD[i] >= 0;
		if (!any) return;
	}
	const int p1 = vf_pos();
	if (c->sp.kind == K_LARGE) {
		if (!vf_shard()) return;
		if (vf_fresh(p1)) { setup_space(); sph = hash_space(); }
	}
	scc_ErrorCode ec;
	if (c->existing > 0) {
		for (int i = 0; i < n; ++i) LAB[i] = OLD[i] < 0 ? SCC_CLABEL_NA : (scc_Clabel) OLD[i];
		ec = scc_init_existing_clustering((uint64_t) n, (uint64_t) oldK, LAB, copy, &CL);
	} else ec = scc_init_empty_clustering((uint64_t) n, NULL, &CL);
	if (ec != SCC_ER_OK) vf_fail("could not make the clustering object: %s", vf_ecname(ec));
	if (c->existing < 0) {
		/* refine the outcome of size constrained clustering */
		scc_ClusterOptions o = scc_get_default_options();
		o.size_constraint = (uint32_t) vf_range(2, n);
		o.primary_unassigned_method = vf_choose(2) ? SCC_UM_CLOSEST_SEED : SCC_UM_IGNORE;
		o.primary_radius = SCC_RM_NO_RADIUS; o.secondary_radius = SCC_RM_NO_RADIUS;
		o.seed_method = (scc_SeedMethod) (vf_choose(2) ? SCC_SM_INWARDS_UPDATING : SCC_SM_LEXICAL);
		if ((ec = scc_sc_clustering(dataset(), &o, CL)) != SCC_ER_OK) vf_fail("clustering failed with %s", vf_ecname(ec));
		vf_transition();
		uint64_t k = 0;
		scc_get_clustering_info(CL, NULL, &k); oldK = (int) k;
		if (scc_get_cluster_labels(CL, (size_t) n, LAB) != SCC_ER_OK) vf_fail("no labels");
		for (int i = 0; i < n; ++i) OLD[i] = vf_lab(LAB[i]);
	}
	ec = scc_hierarchical_clustering(dataset(), (uint32_t) sz, batch, CL);
	vf_transition();
	if (ec != SCC_ER_OK) vf_fail("hierarchical clustering failed with %s", vf_ecname(ec));
	uint64_t k = 0;
	if (scc_get_clustering_info(CL, NULL, &k) != SCC_ER_OK) vf_fail("no information");
	newK = (int) k;
	static scc_Clabel out[BIGN];
	if ((ec = scc_get_cluster_labels(CL, (size_t) n, out)) != SCC_ER_OK) vf_fail("no labels after hierarchical clustering: %s", vf_ecname(ec));
	for (int i = 0; i < n; ++i) NEW[i] = vf_lab(out[i]);
	done = true;
	if (c->existing > 0) for (int i = 0; i < n; ++i) {
		const int now = vf_lab(LAB[i]);
		if (copy && now != OLD[i]) vf_fail("the caller's labels were changed although they were copied");
		if (!copy && now != NEW[i]) vf_fail("the caller's label array does not hold the new labels");
	}
	scc_free_clustering(&CL);
	judge();
	uint64_t h = vf_mix(sph, (uint64_t) (sz * 4 + batch * 2 + copy));
	uint64_t r = (uint64_t) newK;
	for (int i = 0; i < n; ++i) { h = vf_mix(h, (uint64_t) (OLD[i] + 1)); r = vf_mix(r, (uint64_t) (NEW[i] + 1)); }
	vf_state(vf_mix(h, r));
	vf_outcome(r);
	if (vf_want_sample()) vf_sample("explored");
}

#define SC(name, ...) static void name(void) { static const cfg c = { __VA_ARGS__ }; explore(&c); }
#if PROP == 8
SC(s1, { K_LEVELS, 2, 5, 3, 2 }, 2, 3, 0)
SC(s2, { K_WEAK, 4, 4, 6, 2 }, 2, 2, 0)
SC(s3, { K_GRID1, 6, 10, 3, 1 }, 2, 5, 0)
SC(s4, { K_LEVELS, 4, 5, 2, 2 }, 2, 2, 3)
SC(s5, { K_LEVELS, 4, 4, 4, 2 }, 2, 2, 3)
SC(s6, { K_GRID1, 6, 7, 2, 1 }, 2, 3, 3)
SC(s7, { K_LARGE, 0, 1, 7, 1 }, 2, 6, 0)
SC(s8, { K_LARGE, 0, 1, 7, 1 }, 2, 5, 7)
SC(s9, { K_GRID1, 5, 8, 3, 1 }, 2, 3, -1)
SC(s10, { K_GRID2, 6, 6, 3, 1 }, 2, 3, 0)
SC(s11, { K_GRID1, 4, 4, 2, 1 }, 2, 2, 6)
SC(w1, { K_LARGE, 3, 1, 7, 1 }, 0, 0, 0)
SC(w2, { K_LARGE, 3, 1, 7, 1 }, 0, 0, 7)
SC(t1, { K_GRID1, 11, 12, 3, 1 }, 2, 6, 0)
SC(t2, { K_GRID2, 7, 7, 3, 1 }, 2, 3, 0)
SC(t3, { K_LEVELS, 5, 5, 3, 2 }, 2, 2, 3)
SC(t4, { K_LEVELS, 6, 6, 2, 2 }, 2, 3, 2)
SC(t5, { K_GRID1, 9, 9, 3, 1 }, 2, 4, -1)
SC(z2, { K_GRID1, 6, 7, 3, 1, 1 }, 2, 3, 0)
const vf_scenario vf_scenarios[] = { { "levels", s1, 0 }, { "weak-orders", s2, 0 }, { "grid", s3, 0 }, { "existing", s4, 0 }, { "existing-identical", s5, 0 }, { "existing-grid", s6, 0 }, { "large", s7, 0 }, { "large-existing", s8, 0 }, { "refine", s9, 0 }, { "grid2d", s10, 0 }, { "many-existing", s11, 0 }, { "large-sizes", w1, 0 }, { "large-sizes-existing", w2, 0 }, { "grid12", t1, 1 }, { "grid2d7", t2, 1 }, { "existing-levels", t3, 1 }, { "existing6", t4, 1 }, { "refine9", t5, 1 }, { "scaled-grid", z2, 0 }, { 0 } };
#else
SC(s1, { K_LEVELS, 4, 5, 3, 2 }, 2, 2, 0)
SC(s2, { K_WEAK, 4, 4, 6, 2 }, 2, 2, 0)
SC(s3, { K_GRID1, 6, 9, 4, 1 }, 2, 4, 0)
SC(s4, { K_LEVELS, 4, 5, 2, 2 }, 2, 2, 2)
SC(s5, { K_LEVELS, 4, 4, 4, 2 }, 2, 2, 2)
SC(s6, { K_LEVELS, 6, 6, 2, 2 }, 2, 3, 0)
SC(s7, { K_GRID2, 5, 6, 3, 1 }, 2, 3, 0)
SC(s8, { K_LEVELS, 5, 5, 4, 2 }, 2, 2, 0)
SC(s9, { K_CHAIN, 6, 8, 4, 2 }, 2, 4, 0)
SC(s10, { K_LARGE, 0, 1, 9, 1 }, 2, 6, 0)
SC(s11, { K_LARGE, 0, 1, 9, 1 }, 2, 4, 7)
SC(w1, { K_LARGE, 3, 1, 9, 1 }, 0, 0, 0)
SC(w2, { K_LARGE, 2, 1, 9, 1 }, 0, 0, 7)
SC(t1, { K_GRID1, 10, 10, 4, 1 }, 2, 5, 0)
SC(t2, { K_GRID2, 7, 7, 3, 1 }, 2, 3, 0)
SC(t3, { K_LEVELS, 5, 5, 5, 2 }, 2, 2, 0)
SC(t4, { K_GRID1, 8, 8, 3, 1 }, 2, 3, 2)
SC(z1, { K_LEVELS, 4, 5, 2, 1, 1 }, 2, 2, 2)
SC(z2, { K_GRID1, 6, 7, 3, 1, 1 }, 2, 3, 0)
SC(z3, { K_ORDER, 5, 6, 3, 1 }, 2, 3, 0)
const vf_scenario vf_scenarios[] = { { "levels", s1, 0 }, { "weak-orders", s2, 0 }, { "grid", s3, 0 }, { "existing", s4, 0 }, { "identical-points", s5, 0 }, { "levels6", s6, 0 }, { "grid2d", s7, 0 }, { "levels5", s8, 0 }, { "chains", s9, 0 }, { "large", s10, 0 }, { "large-existing", s11, 0 }, { "large-sizes", w1, 0 }, { "large-sizes-existing", w2, 0 }, { "grid10", t1, 1 }, { "grid2d7", t2, 1 }, { "levels5-five", t3, 1 }, { "existing-grid8", t4, 1 }, { "scaled", z1, 0 }, { "scaled-grid", z2, 0 }, { "orders", z3, 0 }, { 0 } };
#endif
