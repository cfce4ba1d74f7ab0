/* Distance backend over an explicit finite space, with protocol monitor and fault injection. */
#define VF_NO_REDIRECT
#include <math.h>
#include "vf.h"

#define MAGIC 0x5cc1057
#define OBJMAGIC 0x0b1ec7

double vf_dist(const vf_space* sp, int i, int j)
{
	if (!sp->coords) return sp->D[i][j];
	double s = 0.0;
	for (int d = 0; d < sp->dim; ++d) {
		double v = sp->xy[i * sp->dim + d] - sp->xy[j * sp->dim + d];
		s += v * v;
	}
	return sqrt(s);
}

typedef struct { int magic, kind; vf_backend* b; size_t len; const scc_PointIndex* idx; } obj;

void vf_backend_init(vf_backend* b, const vf_space* sp, int tiebreak)
{
	memset(b, 0, sizeof *b);
	b->magic = MAGIC; b->sp = sp; b->tiebreak = tiebreak;
}

static vf_backend* get(void* ds)
{
	vf_backend* b = ds;
	if (b == NULL || b->magic != MAGIC) vf_fail("distance function called with a data set that is not the caller's");
	return b;
}

static bool fault(vf_backend* b)
{
	if (vf_yield_hook) vf_yield_hook(3);
	vf_transition();
	++b->calls;
	if (b->reenter) b->reenter();
	if (b->calls == b->fail_at || b->calls == b->fail_at2) { ++b->failed; return true; }
	return false;
}

static int pt(vf_backend* b, const scc_PointIndex* idx, size_t i, const char* who)
{
	const uintmax_t v = idx ? (uintmax_t) idx[i] : (uintmax_t) i;
	if (v >= (uintmax_t) b->sp->n) vf_fail("%s was given the point %ju of %d points", who, v, b->sp->n);
	return (int) v;
}

static bool be_check(void* ds)
{
	vf_backend* b = ds;
	if (b == NULL || b->magic != MAGIC) return false;
	if (++b->check_calls == b->check_fail_at) return false;
	return true;
}

static size_t be_num(void* ds)
{
	vf_backend* b = get(ds);
	return b->lie_n ? b->lie_n : (size_t) b->sp->n;
}

static bool be_matrix(void* ds, size_t len, const scc_PointIndex* idx, double* out)
{
	vf_backend* b = get(ds);
	++b->n_matrix;
	if (len < 2) vf_fail("distance matrix requested for %zu points", len);
	if (out == NULL) vf_fail("distance matrix without output");
	if (fault(b)) return false;
	for (size_t i = 0; i < len; ++i)
		for (size_t j = i + 1; j < len; ++j)
			*out++ = vf_dist(b->sp, pt(b, idx, i, "get_dist_matrix"), pt(b, idx, j, "get_dist_matrix"));
	return true;
}

static bool be_rows(void* ds, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* out)
{
	vf_backend* b = get(ds);
	++b->n_rows;
	if (nq == 0 || nc == 0) vf_fail("distance rows requested for %zu x %zu points", nq, nc);
	if (out == NULL) vf_fail("distance rows without output");
	if (fault(b)) return false;
	for (size_t i = 0; i < nq; ++i)
		for (size_t j = 0; j < nc; ++j)
			*out++ = vf_dist(b->sp, pt(b, q, i, "get_dist_rows"), pt(b, c, j, "get_dist_rows"));
	return true;
}

static bool mk(vf_backend* b, int kind, size_t len, const scc_PointIndex* idx, void** out)
{
	if (len == 0) vf_fail("search object over zero points");
	if (out == NULL) vf_fail("search object without output");
	if (idx) for (size_t i = 0; i < len; ++i) pt(b, idx, i, "init of a search object");
	else if (len > (size_t) (b->lie_n ? b->lie_n : (size_t) b->sp->n)) vf_fail("search object over %zu of %d points", len, b->sp->n);
	if (fault(b)) return false;
	obj* o = malloc(sizeof *o);
	*o = (obj) { OBJMAGIC, kind, b, len, idx };
	++b->open_objs;
	*out = o;
	return true;
}

static obj* ob(void* p, int kind)
{
	obj* o = p;
	if (o == NULL) vf_fail("search with a NULL search object");
	if (o->magic != OBJMAGIC || o->kind != kind) vf_fail("search with an object that is closed or of the wrong kind");
	return o;
}

static bool cl(void** p, int kind)
{
	if (p == NULL || *p == NULL) return true;
	obj* o = ob(*p, kind);
	if (vf_yield_hook) vf_yield_hook(3);
	vf_transition();
	vf_backend* b = o->b;
	--b->open_objs;
	o->magic = 0;
	free(o);
	*p = NULL;
	if (++b->close_calls == b->close_fail_at) { ++b->close_failed; return false; }
	return true;
}

static bool be_initmax(void* ds, size_t len, const scc_PointIndex* idx, iscc_MaxDistObject** out)
{
	vf_backend* b = get(ds);
	++b->n_maxinit;
	return mk(b, 1, len, idx, (void**) out);
}

static bool be_max(iscc_MaxDistObject* mo, size_t nq, const scc_PointIndex* q, scc_PointIndex* oi, double* od)
{
	obj* o = ob(mo, 1);
	vf_backend* b = o->b;
	++b->n_max;
	if (nq == 0 || oi == NULL || od == NULL) vf_fail("maximum distance search with missing arguments");
	if (fault(b)) return false;
	for (size_t i = 0; i < nq; ++i) {
		int p = pt(b, q, i, "get_max_dist"), best = -1;
		double bd = -1.0;
		for (size_t s = 0; s < o->len; ++s) {
			int w = pt(b, o->idx, s, "get_max_dist");
			double d = vf_dist(b->sp, p, w);
			if (d > bd || (b->tiebreak == 1 && d == bd)) { bd = d; best = w; }
		}
		oi[i] = (scc_PointIndex) best;
		od[i] = bd;
	}
	return true;
}

static bool be_closemax(iscc_MaxDistObject** p) { return cl((void**) p, 1); }

static bool be_initnn(void* ds, size_t len, const scc_PointIndex* idx, iscc_NNSearchObject** out)
{
	vf_backend* b = get(ds);
	++b->n_nninit;
	return mk(b, 2, len, idx, (void**) out);
}

static bool be_nn(iscc_NNSearchObject* no, size_t nq, const scc_PointIndex* q, uint32_t k, bool rs, double r,
                  size_t* out_ok, scc_PointIndex* oq, scc_PointIndex* onn)
{
	obj* o = ob(no, 2);
	vf_backend* b = o->b;
	++b->n_nn;
	if (nq == 0 || k == 0 || out_ok == NULL || onn == NULL) vf_fail("nearest neighbor search with missing arguments");
	if (k > o->len) vf_fail("%u neighbors requested from a set of %zu points", k, o->len);
	if (rs && !(r > 0.0)) vf_fail("nearest neighbor search with radius %g", r);
	if (rs && oq == NULL) vf_fail("radius search without output for the queries that succeeded");
	if (fault(b)) return false;
	size_t ok = 0;
	int* ord = malloc(sizeof(int) * o->len);
	double* dd = malloc(sizeof(double) * o->len);
	for (size_t i = 0; i < nq; ++i) {
		const int p = pt(b, q, i, "nearest_neighbor_search");
		size_t m = 0;
		for (size_t s = 0; s < o->len; ++s) {
			const int w = pt(b, o->idx, s, "nearest_neighbor_search");
			const double d = vf_dist(b->sp, p, w);
			if (rs && d > r) continue;
			if (m == k) {
				const double ld = dd[m - 1];
				if (d > ld) continue;
				if (d == ld && b->tiebreak == 0) continue;
			}
			size_t at = m;
			while (at > 0) {
				bool before = d < dd[at - 1];
				if (!before && d == dd[at - 1]) {
					if (b->tiebreak == 1) before = (w > ord[at - 1]);
					else if (b->tiebreak == 2) before = (ord[at - 1] == p);
				}
				if (!before) break;
				--at;
			}
			if (at == k) continue;
			for (size_t t = (m < k ? m : k - 1); t > at; --t) { ord[t] = ord[t - 1]; dd[t] = dd[t - 1]; }
			ord[at] = w; dd[at] = d;
			if (m < k) ++m;
		}
		if (m < k) continue;
		for (size_t t = 0; t < k; ++t) onn[ok * k + t] = (scc_PointIndex) ord[t];
		if (oq) oq[ok] = (scc_PointIndex) p;
		++ok;
	}
	free(ord); free(dd);
	*out_ok = ok;
	return true;
}

static bool be_closenn(iscc_NNSearchObject** p) { return cl((void**) p, 2); }

void vf_backend_install(void)
{
	if (!scc_set_dist_functions(be_check, be_num, be_matrix, be_rows, be_initmax, be_max, be_closemax, be_initnn, be_nn, be_closenn))
		vf_fail("a complete set of distance functions was rejected");
}

void vf_backend_uninstall(void)
{
	if (!scc_reset_dist_functions()) vf_fail("resetting the distance functions failed");
}

/* ------------------------------------------------------------------ results */

const char* vf_ecname(scc_ErrorCode ec)
{
	static const char* const n[] = { "OK", "UNKNOWN_ERROR", "INVALID_INPUT", "NO_MEMORY", "NO_SOLUTION", "TOO_LARGE_PROBLEM", "DIST_SEARCH_ERROR", "NOT_IMPLEMENTED" };
	return ((unsigned) ec < 8) ? n[ec] : "?";
}

int vf_lab(scc_Clabel l)
{
	if (l == SCC_CLABEL_NA) return -1;
	if ((uintmax_t) l > 1000000000u) return -2;
	return (int) l;
}

bool vf_run_sc(void* ds, const vf_space* sp, const scc_ClusterOptions* o, vf_result* res)
{
	scc_Clustering* c = NULL;
	res->n = sp->n;
	res->K = 0;
	if (scc_init_empty_clustering((uint64_t) sp->n, NULL, &c) != SCC_ER_OK) vf_fail("could not make a clustering object");
	vf_transition();
	res->ec = scc_sc_clustering(ds, o, c);
	vf_transition();
	if (res->ec == SCC_ER_OK) {
		uint64_t n = 0, K = 0;
		if (scc_get_clustering_info(c, &n, &K) != SCC_ER_OK) vf_fail("no information about a clustering just made");
		if (n != (uint64_t) sp->n) vf_fail("the clustering reports %lu data points instead of %d", (unsigned long) n, sp->n);
		res->K = (long) K;
		scc_Clabel small[64];
		scc_Clabel* buf = sp->n <= 64 ? small : malloc(sizeof(scc_Clabel) * (size_t) sp->n);
		scc_ErrorCode e2 = scc_get_cluster_labels(c, (size_t) sp->n, buf);
		if (e2 != SCC_ER_OK) vf_fail("a successful clustering has no labels (%s, %ld clusters)", vf_ecname(e2), res->K);
		for (int i = 0; i < sp->n; ++i) res->lab[i] = vf_lab(buf[i]);
		if (buf != small) free(buf);
	} else {
		uint64_t K = 1;
		if (scc_get_clustering_info(c, NULL, &K) != SCC_ER_OK || K != 0) vf_fail("a failed clustering leaves %lu clusters behind", (unsigned long) K);
		for (int i = 0; i < sp->n; ++i) res->lab[i] = -1;
	}
	scc_free_clustering(&c);
	return res->ec == SCC_ER_OK;
}

uint64_t vf_hash_result(const vf_result* r)
{
	uint64_t h = vf_mix(17, (uint64_t) r->ec);
	h = vf_mix(h, (uint64_t) r->K);
	for (int i = 0; i < r->n; ++i) h = vf_mix(h, (uint64_t) (r->lab[i] + 2));
	return h;
}

void vf_note_space(const vf_space* sp)
{
	if (sp->coords) {
		vf_note("%d points in %d dim:", sp->n, sp->dim);
		for (int i = 0; i < sp->n && i < 40; ++i) {
			vf_note(" (");
			for (int d = 0; d < sp->dim; ++d) vf_note("%s%g", d ? "," : "", sp->xy[i * sp->dim + d]);
			vf_note(")");
		}
		if (sp->n > 40) vf_note(" ...");
	} else {
		vf_note("%d points, distances d(i,j), i<j:", sp->n);
		for (int i = 0; i < sp->n; ++i) for (int j = i + 1; j < sp->n; ++j) vf_note(" %g", sp->D[i][j]);
	}
	vf_note("; ");
}

void vf_note_options(const scc_ClusterOptions* o, int n)
{
	static const char* const sm[] = { "LEXICAL", "BATCHES", "INWARDS_ORDER", "INWARDS_UPDATING", "EXCLUSION_ORDER", "EXCLUSION_UPDATING" };
	static const char* const um[] = { "IGNORE", "ANY_NEIGHBOR", "CLOSEST_ASSIGNED", "CLOSEST_SEED" };
	static const char* const rm[] = { "none", "supplied", "as_seed", "estimated" };
	vf_note("size=%u seed_method=%s primary=%s secondary=%s seed_radius=%s(%g) primary_radius=%s(%g) secondary_radius=%s(%g) batch=%u",
	        o->size_constraint, (unsigned) o->seed_method < 6 ? sm[o->seed_method] : "?", (unsigned) o->primary_unassigned_method < 4 ? um[o->primary_unassigned_method] : "?",
	        (unsigned) o->secondary_unassigned_method < 4 ? um[o->secondary_unassigned_method] : "?",
	        (unsigned) o->seed_radius < 4 ? rm[o->seed_radius] : "?", o->seed_supplied_radius, (unsigned) o->primary_radius < 4 ? rm[o->primary_radius] : "?", o->primary_supplied_radius,
	        (unsigned) o->secondary_radius < 4 ? rm[o->secondary_radius] : "?", o->secondary_supplied_radius, o->batch_size);
	if (o->primary_data_points && o->len_primary_data_points) {
		vf_note(" primary_points={");
		for (size_t i = 0; i < o->len_primary_data_points && i < 40; ++i) vf_note("%s%ju", i ? "," : "", (uintmax_t) o->primary_data_points[i]);
		vf_note("}");
	}
	if (o->num_types >= 2 && o->type_constraints && o->type_labels) {
		vf_note(" type_constraints={");
		for (uint32_t t = 0; t < o->num_types && t < 16; ++t) vf_note("%s%u", t ? "," : "", o->type_constraints[t]);
		vf_note("} types={");
		for (int i = 0; i < n && i < 40; ++i) vf_note("%s%ju", i ? "," : "", (uintmax_t) o->type_labels[i]);
		vf_note("}");
	}
	vf_note("; ");
}

void vf_note_labels(const char* what, const int* lab, int n)
{
	vf_note("%s=[", what);
	for (int i = 0; i < n && i < 60; ++i) vf_note("%s%d", i ? " " : "", lab[i]);
	vf_note("]; ");
}
