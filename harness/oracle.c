/* Reference judgement of a clustering: computed from distances and options only, with plain
 * quadratic loops, independent of the library's graphs and searches. */
#define VF_NO_REDIRECT
#include <math.h>
#include "vf.h"

typedef struct {
	int n, sc, T, sum;
	bool typed;
	const uint32_t* tc;
	const int* type;
	const char* prim;
	double r;            /* seed radius, INFINITY if none */
	double* d;           /* n*n */
	double* thr;         /* n: distance to the sc-th nearest point, itself included */
	double* tthr;        /* n*T: distance to the tc[t]-th nearest point of type t (0 if tc[t]==0) */
	char* feas;          /* n */
	char* cand;          /* n: can be the seed of its core cluster */
	double* mean;        /* n: mean distance to the other members of its core cluster */
} ctx;

#define DD(c, i, j) ((c)->d[(size_t) (i) * (size_t) (c)->n + (size_t) (j)])

static void* xalloc(size_t b)
{
	void* p = calloc(1, b ? b : 1);
	if (!p) vf_error("out of memory in the oracle");
	return p;
}

static int cmpd(const void* a, const void* b)
{
	const double x = *(const double*) a, y = *(const double*) b;
	return (x > y) - (x < y);
}

static void sortd(double* a, int m)
{
	if (m > 16) { qsort(a, (size_t) m, sizeof *a, cmpd); return; }
	for (int i = 1; i < m; ++i) {
		double v = a[i]; int j = i;
		for (; j > 0 && a[j - 1] > v; --j) a[j] = a[j - 1];
		a[j] = v;
	}
}

static double seed_radius(const scc_ClusterOptions* o)
{
	return (o->seed_radius == SCC_RM_USE_SUPPLIED) ? o->seed_supplied_radius : INFINITY;
}

static void ctx_make(ctx* c, const vf_problem* p)
{
	const scc_ClusterOptions* o = p->o;
	const int n = p->sp->n;
	memset(c, 0, sizeof *c);
	c->n = n; c->sc = (int) o->size_constraint; c->r = seed_radius(o);
	c->prim = p->primary; c->type = p->type;
	c->T = (p->type && o->num_types >= 2) ? (int) o->num_types : 0;
	c->tc = o->type_constraints;
	for (int t = 0; t < c->T; ++t) c->sum += (int) c->tc[t];
	c->typed = c->sum > 0;
	c->d = xalloc(sizeof(double) * (size_t) n * (size_t) n);
	c->thr = xalloc(sizeof(double) * (size_t) n);
	c->tthr = xalloc(sizeof(double) * (size_t) n * (size_t) (c->T + 1));
	c->feas = xalloc((size_t) n); c->cand = xalloc((size_t) n);
	c->mean = xalloc(sizeof(double) * (size_t) n);
	double* a = xalloc(sizeof(double) * (size_t) n);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) DD(c, i, j) = vf_dist(p->sp, i, j);
	for (int v = 0; v < n; ++v) {
		bool ok = c->prim[v];
		for (int w = 0; w < n; ++w) a[w] = DD(c, v, w);
		sortd(a, n);
		c->thr[v] = (c->sc <= n) ? a[c->sc - 1] : INFINITY;
		if (!c->typed) ok = ok && c->thr[v] <= c->r;
		else {
			for (int t = 0; t < c->T; ++t) if (c->tc[t]) {
				int m = 0;
				for (int w = 0; w < n; ++w) if (c->type[w] == t) a[m++] = DD(c, v, w);
				sortd(a, m);
				const double x = (int) c->tc[t] <= m ? a[c->tc[t] - 1] : INFINITY;
				c->tthr[v * c->T + t] = x;
				ok = ok && x <= c->r && x < INFINITY;
			}
			if (c->sc > c->sum) ok = ok && c->thr[v] <= c->r;
		}
		c->feas[v] = ok && c->thr[v] < INFINITY;
	}
	free(a);
}

static void ctx_free(ctx* c)
{
	free(c->d); free(c->thr); free(c->tthr); free(c->feas); free(c->cand); free(c->mean);
}

unsigned vf_expected(const vf_problem* p)
{
	ctx c;
	if (p->sp->n < (int) p->o->size_constraint) return 1u << SCC_ER_NO_SOLUTION;
	ctx_make(&c, p);
	bool any = false, enough = true;
	for (int v = 0; v < c.n; ++v) any = any || c.feas[v];
	for (int t = 0; t < c.T; ++t) {
		uint32_t m = 0;
		for (int w = 0; w < c.n; ++w) m += (c.type[w] == t);
		if (m < c.tc[t]) enough = false;
	}
	ctx_free(&c);
	return (any && enough) ? (1u << SCC_ER_OK) : (1u << SCC_ER_NO_SOLUTION);
}

/* could w be one of the points v selects as its neighbors? */
static bool possible(const ctx* c, int v, int w)
{
	if (v == w) return true;
	if (!c->typed) return DD(c, v, w) <= c->thr[v];
	const int t = c->type[w];
	if (c->tc[t] && DD(c, v, w) <= c->tthr[v * c->T + t]) return true;
	return c->sc > c->sum && DD(c, v, w) <= c->thr[v];
}

/* must w be one of them? */
static bool definite(const ctx* c, int v, int w)
{
	if (v == w) return true;
	if (!c->typed) return DD(c, v, w) < c->thr[v];
	const int t = c->type[w];
	return c->tc[t] && DD(c, v, w) < c->tthr[v * c->T + t];
}

static void seed_candidates(ctx* c, const vf_result* core)
{
	const int n = c->n;
	double* in = xalloc(sizeof(double) * (size_t) n);
	double* all = xalloc(sizeof(double) * (size_t) n);
	for (int s = 0; s < n; ++s) {
		c->cand[s] = 0;
		const int L = core->lab[s];
		if (L < 0) continue;
		int size = 0; double mx = 0.0, mean = 0.0, out = INFINITY; int within = 0;
		for (int w = 0; w < n; ++w) {
			const double d = DD(c, s, w);
			if (core->lab[w] == L) {
				++size; mean += d;
				if (d > mx) mx = d;
				if (d <= c->r) ++within;
			} else if (d < out) out = d;
		}
		c->mean[s] = size > 1 ? mean / (size - 1) : 0.0;
		if (!c->prim[s]) continue;
		if (!c->typed) {
			c->cand[s] = (size == c->sc && mx <= out && mx <= c->r);
			continue;
		}
		const bool own = c->tc[c->type[s]] > 0;
		if (own) { if (size != c->sc) continue; }
		else if (c->sc == c->sum) { if (size != c->sc + 1) continue; }
		else if (size != c->sc && size != c->sc + 1) continue;
		bool ok = true;
		double extra = 0.0;
		for (int t = 0; t < c->T && ok; ++t) {
			int m = 0, M = 0;
			const int k = (int) c->tc[t];
			for (int w = 0; w < n; ++w) if (c->type[w] == t) {
				all[M++] = DD(c, s, w);
				if (core->lab[w] == L) in[m++] = DD(c, s, w);
			}
			if (m < k) { ok = false; break; }
			sortd(in, m); sortd(all, M);
			for (int i = 0; i < k; ++i) if (in[i] != all[i] || in[i] > c->r) ok = false;
			if (m > k && in[m - 1] > extra) extra = in[m - 1];
		}
		if (!ok) continue;
		if (extra > out) continue;
		if (c->sc > c->sum && within < c->sc) continue;
		if (c->sc > c->sum && extra > c->r) continue;
		c->cand[s] = 1;
	}
	free(in); free(all);
}

static void check_wellformed(const ctx* c, const vf_result* r, const char* what)
{
	if (r->K < 1) vf_fail("%s: %ld clusters", what, r->K);
	int* cnt = xalloc(sizeof(int) * (size_t) (r->K + 1));
	for (int i = 0; i < c->n; ++i) {
		if (r->lab[i] < -1 || r->lab[i] >= r->K) vf_fail("%s: point %d has label %d of %ld clusters", what, i, r->lab[i], r->K);
		if (r->lab[i] >= 0) ++cnt[r->lab[i]];
	}
	for (long k = 0; k < r->K; ++k) if (cnt[k] < c->sc) vf_fail("%s: cluster %ld has %d points, the size constraint is %d", what, k, cnt[k], c->sc);
	free(cnt);
}

static void check_types(const ctx* c, const vf_result* r, const char* what)
{
	if (!c->T) return;
	uint32_t* cnt = xalloc(sizeof(uint32_t) * (size_t) (r->K + 1) * (size_t) c->T);
	for (int i = 0; i < c->n; ++i) if (r->lab[i] >= 0) ++cnt[r->lab[i] * c->T + c->type[i]];
	for (long k = 0; k < r->K; ++k) for (int t = 0; t < c->T; ++t)
		if (cnt[k * c->T + t] < c->tc[t]) vf_fail("%s: cluster %ld has %u points of type %d, at least %u are required", what, k, cnt[k * c->T + t], t, c->tc[t]);
	free(cnt);
}

static bool isgrid(double x) { return x * 2.0 == floor(x * 2.0) && fabs(x) < 1e9; }

/* -1 outside, 0 too close to tell, 1 inside */
static int within_radius(double d, double r, bool r_exact)
{
	if (r == INFINITY) return 1;
	if (r_exact) return d <= r ? 1 : -1;
	if (fabs(d - r) <= 1e-9 * fabs(r)) return 0;
	return d < r ? 1 : -1;
}

typedef struct { double r; bool exact; } rad;

static rad eff_radius(const ctx* c, const scc_ClusterOptions* o, scc_RadiusMethod m, double supplied, rad est)
{
	(void) c;
	if (m == SCC_RM_USE_SEED_RADIUS) { m = o->seed_radius; supplied = o->seed_supplied_radius; }
	if (m == SCC_RM_NO_RADIUS) return (rad) { INFINITY, true };
	if (m == SCC_RM_USE_SUPPLIED) return (rad) { supplied, true };
	return est;
}

/* the set of labels (core labels) point v may get in one assignment stage; -1 stands for none */
static void stage_any(const ctx* c, const vf_result* core, int v, rad r, char* ok)
{
	/* ok has K+1 entries, ok[K] is "stays unassigned" */
	const long K = core->K;
	memset(ok, 0, (size_t) K + 1);
	if (!c->feas[v]) { ok[K] = 1; return; }
	bool forced = (r.r == INFINITY);
	double far = 0.0; /* all possible neighbors within the radius: forced */
	for (int w = 0; w < c->n; ++w) {
		if (!possible(c, v, w)) continue;
		if (DD(c, v, w) > far) far = DD(c, v, w);
		if (core->lab[w] < 0) continue;
		const int in = within_radius(DD(c, v, w), r.r, r.exact);
		if (in >= 0) ok[core->lab[w]] = 1;
		if (in == 1 && definite(c, v, w)) forced = true;
	}
	if (within_radius(far, r.r, r.exact) == 1) forced = true;
	if (!forced) ok[K] = 1;
}

static void stage_closest(const ctx* c, const vf_result* core, int v, const char* target, rad r, char* ok)
{
	const long K = core->K;
	memset(ok, 0, (size_t) K + 1);
	double best = INFINITY;
	for (int w = 0; w < c->n; ++w) if (core->lab[w] >= 0 && (!target || target[w]) && DD(c, v, w) < best) best = DD(c, v, w);
	const int in = within_radius(best, r.r, r.exact);
	if (in >= 0) for (int w = 0; w < c->n; ++w) if (core->lab[w] >= 0 && (!target || target[w]) && DD(c, v, w) == best) ok[core->lab[w]] = 1;
	if (in <= 0) ok[K] = 1;
}

/* many clusters: the seeds cannot be enumerated jointly, so a necessary condition per point */
static void stage_closest_seed_loose(const ctx* c, const vf_result* core, int v, rad r, char* ok)
{
	const long K = core->K;
	double* near = xalloc(sizeof(double) * (size_t) K);
	double* far = xalloc(sizeof(double) * (size_t) K);
	for (long k = 0; k < K; ++k) { near[k] = INFINITY; far[k] = 0.0; }
	for (int w = 0; w < c->n; ++w) if (c->cand[w]) {
		const int k = core->lab[w];
		if (DD(c, v, w) < near[k]) near[k] = DD(c, v, w);
		if (DD(c, v, w) > far[k]) far[k] = DD(c, v, w);
	}
	double minfar = INFINITY, minnear = INFINITY;
	for (long k = 0; k < K; ++k) { if (far[k] < minfar) minfar = far[k]; if (near[k] < minnear) minnear = near[k]; }
	memset(ok, 0, (size_t) K + 1);
	for (long k = 0; k < K; ++k) if (near[k] <= minfar && within_radius(near[k], r.r, r.exact) >= 0) ok[k] = 1;
	if (within_radius(minfar, r.r, r.exact) <= 0) ok[K] = 1;
	free(near); free(far);
}

static int try_assign(const ctx* c, const scc_ClusterOptions* o, const vf_result* core, const int* got, const char* seeds, bool loose, rad pr, rad sr, char* ok)
{
	const long K = core->K;
	for (int v = 0; v < c->n; ++v) {
		if (core->lab[v] >= 0) continue;
		bool may_stay = true, fits = false;
		if (c->prim[v] && o->primary_unassigned_method != SCC_UM_IGNORE) {
			if (o->primary_unassigned_method == SCC_UM_ANY_NEIGHBOR) stage_any(c, core, v, pr, ok);
			else if (o->primary_unassigned_method == SCC_UM_CLOSEST_ASSIGNED) stage_closest(c, core, v, NULL, pr, ok);
			else if (loose) stage_closest_seed_loose(c, core, v, pr, ok);
			else stage_closest(c, core, v, seeds, pr, ok);
			if (got[v] >= 0 && ok[got[v]]) fits = true;
			may_stay = ok[K];
		}
		if (!fits && may_stay) {
			if (o->secondary_unassigned_method == SCC_UM_IGNORE) fits = (got[v] < 0);
			else {
				if (o->secondary_unassigned_method == SCC_UM_CLOSEST_ASSIGNED) stage_closest(c, core, v, NULL, sr, ok);
				else if (loose) stage_closest_seed_loose(c, core, v, sr, ok);
				else stage_closest(c, core, v, seeds, sr, ok);
				fits = got[v] >= 0 ? ok[got[v]] : ok[K];
			}
		}
		if (!fits) return v;
	}
	return -1;
}

static void check_core(const ctx* c, const vf_result* core)
{
	for (long k = 0; k < core->K; ++k) {
		bool any = false;
		for (int v = 0; v < c->n; ++v) if (core->lab[v] == k && c->cand[v]) any = true;
		if (!any) vf_fail("cluster %ld (before unassigned points are assigned) is not the neighborhood of any admissible seed", k);
	}
	for (int v = 0; v < c->n; ++v) if (core->lab[v] < 0 && c->feas[v]) {
		bool touches = false;
		for (int w = 0; w < c->n; ++w) if (core->lab[w] >= 0 && possible(c, v, w)) touches = true;
		if (!touches) vf_fail("point %d could have been another seed: none of its neighbors is in a cluster", v);
	}
}

/* can the points be partitioned into blocks of at least sc points with all within-block distances <= lim? */
static bool part_ok(const ctx* c, int i, int* blk, int nb, int* size, double lim)
{
	if (i == c->n) { for (int b = 0; b < nb; ++b) if (size[b] < c->sc) return false; return true; }
	for (int b = 0; b <= nb; ++b) {
		bool ok = true;
		for (int j = 0; j < i && ok; ++j) if (blk[j] == b && DD(c, i, j) > lim) ok = false;
		if (!ok) continue;
		blk[i] = b; ++size[b];
		if (part_ok(c, i + 1, blk, b == nb ? nb + 1 : nb, size, lim)) { --size[b]; return true; }
		--size[b];
	}
	return false;
}

static void check_quality(const ctx* c, const scc_ClusterOptions* o, const vf_result* core, const vf_result* res)
{
	double lambda = 0.0;
	/* documented for clusters of two when the arc counts are updated */
	const bool tight = o->seed_method == SCC_SM_INWARDS_UPDATING && c->sc == 2 &&
	                   (o->primary_unassigned_method == SCC_UM_ANY_NEIGHBOR || o->primary_unassigned_method == SCC_UM_CLOSEST_ASSIGNED);
	const double factor = tight ? 2.0 : 4.0;
	for (int v = 0; v < c->n; ++v) if (c->thr[v] > lambda) lambda = c->thr[v];
	for (int i = 0; i < c->n; ++i) for (int j = i + 1; j < c->n; ++j) {
		if (core->lab[i] >= 0 && core->lab[i] == core->lab[j] && DD(c, i, j) > 2 * lambda * (1 + 1e-12))
			vf_fail("points %d and %d share a cluster before assignment at distance %g > 2 * %g", i, j, DD(c, i, j), lambda);
		if (res->lab[i] >= 0 && res->lab[i] == res->lab[j] && DD(c, i, j) > factor * lambda * (1 + 1e-12))
			vf_fail("points %d and %d share a cluster at distance %g > %g * %g", i, j, DD(c, i, j), factor, lambda);
	}
	if (c->n <= 7) {
		double* v = xalloc(sizeof(double) * (size_t) (c->n * c->n));
		int m = 0;
		for (int i = 0; i < c->n; ++i) for (int j = 0; j < c->n; ++j) v[m++] = DD(c, i, j);
		sortd(v, m);
		double opt = INFINITY;
		for (int i = 0; i < m && opt == INFINITY; ++i) {
			if (i && v[i] == v[i - 1]) continue;
			int blk[8], size[9] = { 0 };
			if (part_ok(c, 0, blk, 0, size, v[i])) opt = v[i];
		}
		free(v);
		double worst = 0.0;
		for (int i = 0; i < c->n; ++i) for (int j = i + 1; j < c->n; ++j)
			if (res->lab[i] >= 0 && res->lab[i] == res->lab[j] && DD(c, i, j) > worst) worst = DD(c, i, j);
		if (worst > 4 * opt * (1 + 1e-12)) vf_fail("largest within-cluster distance %g exceeds four times the optimum %g", worst, opt);
	}
}

/* Radius guarantees stated directly on the result, with only the core as help. */
static void check_radii(const ctx* c, const scc_ClusterOptions* o, const vf_result* core, const int* got, rad estlo, rad esthi)
{
	(void) estlo;
	if (c->r < INFINITY) for (long k = 0; k < core->K; ++k) {
		bool ok = false;
		for (int s = 0; s < c->n && !ok; ++s) if (core->lab[s] == k && c->prim[s]) {
			bool all = true;
			for (int w = 0; w < c->n; ++w) if (core->lab[w] == k && DD(c, s, w) > c->r) all = false;
			ok = all;
		}
		if (!ok) vf_fail("no possible seed of cluster %ld has all its neighbors within the seed radius %g", k, c->r);
	}
	for (int v = 0; v < c->n; ++v) {
		if (core->lab[v] >= 0 || got[v] < 0) continue;
		bool ok = false;
		for (int stage = 0; stage < 2 && !ok; ++stage) {
			const scc_UnassignedMethod m = stage ? o->secondary_unassigned_method : o->primary_unassigned_method;
			if (m == SCC_UM_IGNORE || (!stage && !c->prim[v])) continue;
			const rad r = stage ? eff_radius(c, o, o->secondary_radius, o->secondary_supplied_radius, esthi)
			                    : eff_radius(c, o, o->primary_radius, o->primary_supplied_radius, esthi);
			for (int w = 0; w < c->n && !ok; ++w) {
				if (core->lab[w] != got[v]) continue;
				if (m == SCC_UM_CLOSEST_SEED && !c->cand[w]) continue;
				if (within_radius(DD(c, v, w), r.r, r.exact) >= 0) ok = true;
			}
		}
		if (!ok) vf_fail("point %d was added to a cluster although nothing it may be matched with is within the radius", v);
	}
}

static void check_complete(const ctx* c, const scc_ClusterOptions* o, const vf_result* core, const int* got)
{
	const rad none = { 1.0, false };
	const rad pr = eff_radius(c, o, o->primary_radius, o->primary_supplied_radius, none);
	const rad sr = eff_radius(c, o, o->secondary_radius, o->secondary_supplied_radius, none);
	for (int v = 0; v < c->n; ++v) {
		if (got[v] >= 0) {
			if (core->lab[v] < 0) {
				const bool by_primary = c->prim[v] && o->primary_unassigned_method != SCC_UM_IGNORE;
				if (!by_primary && o->secondary_unassigned_method == SCC_UM_IGNORE)
					vf_fail("point %d was assigned to a cluster although it was to be ignored", v);
			}
			continue;
		}
		if (core->lab[v] >= 0) vf_fail("point %d of a seed's neighborhood is unassigned", v);
		if (o->secondary_unassigned_method != SCC_UM_IGNORE && sr.r == INFINITY) vf_fail("point %d is unassigned although all unassigned points are to be assigned without radius", v);
		if (c->prim[v] && pr.r == INFINITY) {
			if (o->primary_unassigned_method == SCC_UM_CLOSEST_ASSIGNED || o->primary_unassigned_method == SCC_UM_CLOSEST_SEED)
				vf_fail("primary point %d is unassigned although primary points are to be assigned without radius", v);
			if (o->primary_unassigned_method == SCC_UM_ANY_NEIGHBOR && c->feas[v])
				vf_fail("primary point %d is unassigned although it has neighbors and those are assigned without radius", v);
		}
	}
}

void vf_judge(const vf_problem* p, const vf_result* core, const vf_result* res, int flags)
{
	const scc_ClusterOptions* o = p->o;
	ctx c;
	ctx_make(&c, p);
	seed_candidates(&c, core);
	vf_validated();

	const bool use_pest = o->primary_unassigned_method != SCC_UM_IGNORE && o->primary_radius == SCC_RM_USE_ESTIMATED;
	const bool use_sest = o->secondary_unassigned_method != SCC_UM_IGNORE && o->secondary_radius == SCC_RM_USE_ESTIMATED;
	const bool use_est = use_pest || use_sest;

	/* range of the estimated radius over everything the seeds can have been */
	double lo = 0.0, hi = 0.0, combos = 1.0;
	bool grid = true;
	for (long k = 0; k < core->K; ++k) {
		double a = INFINITY, b = 0.0; int m = 0;
		for (int s = 0; s < c.n; ++s) if (c.cand[s] && core->lab[s] == k) {
			++m;
			if (c.mean[s] < a) a = c.mean[s];
			if (c.mean[s] > b) b = c.mean[s];
			if (!isgrid(c.mean[s])) grid = false;
		}
		if (m == 0) { if (flags & (OR_CORE | OR_ASSIGN | OR_RADIUS)) check_core(&c, core); a = 0.0; }
		lo += a; hi += b; combos *= (m ? m : 1);
	}
	lo /= (double) core->K; hi /= (double) core->K;

	if (res->ec != SCC_ER_OK) {
		if (flags & OR_FEASIBLE) {
			if (!(use_est && res->ec == SCC_ER_NO_SOLUTION)) vf_fail("%s although the problem has a solution", vf_ecname(res->ec));
			if (lo > 0.0) vf_fail("NO_SOLUTION although the estimated radius is positive");
		} else if (!(use_est && res->ec == SCC_ER_NO_SOLUTION && lo <= 0.0)) vf_fail("unexpected %s", vf_ecname(res->ec));
		ctx_free(&c);
		return;
	}
	if (use_est && hi <= 0.0) {
		if (flags & OR_FEASIBLE) vf_fail("success although the estimated radius is zero");
		ctx_free(&c);
		return;
	}

	if (flags & OR_SIZE) { check_wellformed(&c, core, "before assignment"); check_wellformed(&c, res, "result"); }
	if (flags & OR_TYPE) { check_types(&c, core, "before assignment"); check_types(&c, res, "result"); }
	if (flags & OR_CORE) check_core(&c, core);
	if (flags & OR_QUALITY) check_quality(&c, o, core, res);

	if (flags & (OR_ASSIGN | OR_RADIUS | OR_COMPLETE | OR_CORE)) {
		/* express the result in core labels */
		int* map = xalloc(sizeof(int) * (size_t) (res->K + 1));
		int* inv = xalloc(sizeof(int) * (size_t) (core->K + 1));
		int* got = xalloc(sizeof(int) * (size_t) c.n);
		for (long k = 0; k < res->K; ++k) map[k] = -1;
		for (long k = 0; k < core->K; ++k) inv[k] = -1;
		if (res->K != core->K) vf_fail("%ld clusters, but %ld before unassigned points were assigned", res->K, core->K);
		for (int v = 0; v < c.n; ++v) if (core->lab[v] >= 0) {
			const int a = core->lab[v], b = res->lab[v];
			if (b < 0 || b >= res->K) vf_fail("point %d of a seed's neighborhood has label %d", v, b);
			if (map[b] == -1) map[b] = a;
			if (inv[a] == -1) inv[a] = b;
			if (map[b] != a || inv[a] != b) vf_fail("point %d of a seed's neighborhood was moved to another cluster", v);
		}
		for (int v = 0; v < c.n; ++v) {
			if (res->lab[v] < -1 || res->lab[v] >= res->K) vf_fail("label %d out of range", res->lab[v]);
			got[v] = res->lab[v] < 0 ? -1 : map[res->lab[v]];
		}
		const rad est_lo = { lo, grid && lo == hi && isgrid(lo) }, est_hi = { hi, grid && lo == hi && isgrid(hi) };
		if (flags & OR_COMPLETE) check_complete(&c, o, core, got);
		if (flags & OR_RADIUS) check_radii(&c, o, core, got, est_lo, est_hi);
		if (flags & OR_ASSIGN) {
			char* ok = xalloc((size_t) core->K + 1);
			const bool use_seed = o->primary_unassigned_method == SCC_UM_CLOSEST_SEED || o->secondary_unassigned_method == SCC_UM_CLOSEST_SEED;
			int bad = -1;
			if (!(use_seed || (use_est && lo != hi)) || combos == 1.0) {
				rad pr = eff_radius(&c, o, o->primary_radius, o->primary_supplied_radius, est_hi);
				rad sr = eff_radius(&c, o, o->secondary_radius, o->secondary_supplied_radius, est_hi);
				bad = try_assign(&c, o, core, got, c.cand, false, pr, sr, ok);
			} else if (combos <= 4096.0) {
				char* seeds = xalloc((size_t) c.n);
				int* pick = xalloc(sizeof(int) * (size_t) core->K);
				int firstbad = -1; bool found = false;
				/* pick[k]: index of the candidate among the members of cluster k */
				for (long k = 0; k < core->K; ++k) pick[k] = 0;
				for (;;) {
					memset(seeds, 0, (size_t) c.n);
					double e = 0.0; bool g = true;
					for (long k = 0; k < core->K; ++k) {
						int j = pick[k];
						for (int s = 0; s < c.n; ++s) if (c.cand[s] && core->lab[s] == k && j-- == 0) {
							seeds[s] = 1; e += c.mean[s];
							if (!isgrid(c.mean[s])) g = false;
						}
					}
					e /= (double) core->K;
					const rad est = { e, g && isgrid(e) };
					if (!(use_est && e <= 0.0)) {
						rad pr = eff_radius(&c, o, o->primary_radius, o->primary_supplied_radius, est);
						rad sr = eff_radius(&c, o, o->secondary_radius, o->secondary_supplied_radius, est);
						bad = try_assign(&c, o, core, got, seeds, false, pr, sr, ok);
						if (bad < 0) { found = true; break; }
						if (firstbad < 0) firstbad = bad;
					}
					long k = 0;
					for (; k < core->K; ++k) {
						int m = 0;
						for (int s = 0; s < c.n; ++s) if (c.cand[s] && core->lab[s] == k) ++m;
						if (++pick[k] < m) break;
						pick[k] = 0;
					}
					if (k == core->K) break;
				}
				bad = found ? -1 : firstbad;
				free(seeds); free(pick);
			} else {
				/* radius anywhere in the band is accepted */
				rad est = est_hi;
				if (use_est && lo != hi) est = (rad) { (lo + hi) / 2, false };
				if (use_est && lo != hi) bad = -1;
				else {
					rad pr = eff_radius(&c, o, o->primary_radius, o->primary_supplied_radius, est);
					rad sr = eff_radius(&c, o, o->secondary_radius, o->secondary_supplied_radius, est);
					bad = try_assign(&c, o, core, got, NULL, true, pr, sr, ok);
				}
			}
			free(ok);
			if (bad >= 0) vf_fail("point %d (unassigned after the seeds' neighborhoods) got %s%ld, which the assignment methods do not allow", bad,
			                      got[bad] < 0 ? "no cluster " : "the cluster of core cluster ", (long) got[bad]);
		}
		free(map); free(inv); free(got);
	}
	ctx_free(&c);
}
