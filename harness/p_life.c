/* PROP 15: every history of operations on two clustering objects and the caller's label arrays, up
 * to a depth, against a reference model of ownership and contents. */
#include "spaces.h"

const int vf_watchdog_seconds = 40;

#define N 5
#define PAD 3
static const double PTS[N] = { 0.0, 1.0, 2.5, 10.0, 11.0 };
static scc_DataSet *DSA, *DSB;
static scc_Clabel EXT[2][N + PAD];      /* the caller's arrays, with guard elements */
static const int PAT[3][N] = { { 0, 0, 1, 1, 1 }, { 1, 0, -1, 0, 1 }, { 0, 0, -1, 0, 0 } };
#define GUARD ((scc_Clabel) 99)

typedef struct { scc_Clustering* c; int ext; uint64_t K; scc_Clabel lab[N]; } slot; /* ext: index of the caller's array or -1 */
static slot SL[2];
static scc_Clabel MEXT[2][N];           /* what the model says the caller's arrays hold */
static bool owned_written[2];

enum { O_EMPTY, O_EMPTY_E0, O_EMPTY_E1, O_DEEP, O_SHARED, O_COPY, O_FREE, O_SC, O_SC_INFEASIBLE, O_SC_WRONG, O_HIER, O_HIER_LARGE, O_SC_BATCH, O_SC_PARTIAL, O_WRITE, O_ONE, O_ONE_SHARED, N_OP };
static const char* const opn[] = { "init_empty", "init_empty(array 0)", "init_empty(array 1)", "init_existing(copy)", "init_existing(array 0)", "copy from the other", "free", "sc_clustering", "sc_clustering (infeasible)",
	"sc_clustering (other data set)", "hierarchical_clustering", "hierarchical_clustering (size too large)", "sc_clustering (batches)", "sc_clustering (some stay unassigned)", "the caller writes to array 0", "init_existing(copy, one cluster)", "init_existing(array 0, one cluster)" };
static int hist[16], nhist;

static void describe(void)
{
	for (int i = 0; i < nhist; ++i) vf_note("%s%s on object %d", i ? "; " : "", opn[hist[i] / 2], hist[i] % 2);
}

static scc_Clabel* model_lab(slot* s) { return s->ext >= 0 ? MEXT[s->ext] : s->lab; }

static void set_pat(scc_Clabel* to, int p) { for (int i = 0; i < N; ++i) to[i] = PAT[p][i] < 0 ? SCC_CLABEL_NA : (scc_Clabel) PAT[p][i]; }

static scc_ClusterOptions opts(int op)
{
	scc_ClusterOptions o = scc_get_default_options();
	o.size_constraint = 2;
	if (op == O_SC_INFEASIBLE) { o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 0.25; }
	if (op == O_SC_BATCH) { o.seed_method = SCC_SM_BATCHES; o.batch_size = 2; }
	if (op == O_SC_PARTIAL) { o.primary_unassigned_method = SCC_UM_IGNORE; }
	return o;
}

/* what the call gives on a fresh object holding the same clustering */
static scc_ErrorCode fresh(int op, const slot* s, const scc_Clabel* lab, uint64_t* K, scc_Clabel* out)
{
	scc_Clustering* c = NULL;
	scc_ErrorCode e = s->K ? scc_init_existing_clustering(N, s->K, (scc_Clabel*) lab, true, &c) : scc_init_empty_clustering(N, NULL, &c);
	if (e != SCC_ER_OK) vf_fail("could not make a fresh object: %s", vf_ecname(e));
	if (op == O_HIER || op == O_HIER_LARGE) e = scc_hierarchical_clustering(DSA, op == O_HIER ? 2 : N + 1, false, c);
	else { const scc_ClusterOptions o = opts(op); e = scc_sc_clustering(op == O_SC_WRONG ? DSB : DSA, &o, c); }
	if (e == SCC_ER_OK) {
		if (scc_get_clustering_info(c, NULL, K) != SCC_ER_OK || scc_get_cluster_labels(c, N, out) != SCC_ER_OK) vf_fail("no labels from a fresh object");
	}
	scc_free_clustering(&c);
	return e;
}

static void check_slot(int i)
{
	slot* s = &SL[i];
	if (s->c == NULL) {
		if (scc_is_initialized_clustering(NULL)) vf_fail("NULL is an initialized clustering");
		return;
	}
	uint64_t n = 0, K = 99;
	if (!scc_is_initialized_clustering(s->c)) vf_fail("object %d is no longer initialized", i);
	if (scc_get_clustering_info(s->c, &n, &K) != SCC_ER_OK) vf_fail("no information about object %d", i);
	if (n != N || K != s->K) vf_fail("object %d has %lu points and %lu clusters, %d and %lu expected", i, (unsigned long) n, (unsigned long) K, N, (unsigned long) s->K);
	scc_Clabel buf[N + 4];
	const int lens[3] = { 3, N, N + 2 };
	for (int k = 0; k < 3; ++k) {
		for (int j = 0; j < N + 4; ++j) buf[j] = GUARD;
		const scc_ErrorCode e = scc_get_cluster_labels(s->c, (size_t) lens[k], buf);
		if (s->K == 0) {
			if (e != SCC_ER_INVALID_INPUT) vf_fail("labels of the empty object %d: %s", i, vf_ecname(e));
			for (int j = 0; j < N + 4; ++j) if (buf[j] != GUARD) vf_fail("labels written for an empty object");
			continue;
		}
		if (e != SCC_ER_OK) vf_fail("no labels from object %d: %s", i, vf_ecname(e));
		for (int j = 0; j < N + 4; ++j) {
			const scc_Clabel want = j >= lens[k] ? GUARD : j < N ? model_lab(s)[j] : SCC_CLABEL_NA;
			if (buf[j] != want) vf_fail("object %d: label %d is %d, %d expected", i, j, vf_lab(buf[j]), vf_lab(want));
		}
	}
}

static uint64_t state_hash(void)
{
	uint64_t h = 3;
	for (int i = 0; i < 2; ++i) {
		h = vf_mix(h, SL[i].c == NULL ? 7 : (uint64_t) (SL[i].ext + 2) * 16 + SL[i].K);
		if (SL[i].c && SL[i].K) for (int j = 0; j < N; ++j) h = vf_mix(h, (uint64_t) vf_lab(model_lab(&SL[i])[j]) + 5);
		for (int j = 0; j < N; ++j) h = vf_mix(h, (uint64_t) vf_lab(MEXT[i][j]) + 5);
	}
	return h;
}

static bool step(int op, int w)
{
	slot* s = &SL[w];
	slot* o = &SL[1 - w];
	scc_ErrorCode e;
	switch (op) {
	case O_EMPTY: case O_EMPTY_E0: case O_EMPTY_E1:
		if (s->c) return false;
		e = scc_init_empty_clustering(N, op == O_EMPTY ? NULL : EXT[op - O_EMPTY_E0], &s->c);
		if (e != SCC_ER_OK) vf_fail("init_empty: %s", vf_ecname(e));
		s->K = 0; s->ext = op - O_EMPTY_E0;
		break;
	case O_DEEP: case O_SHARED:
		if (s->c) return false;
		set_pat(EXT[0], op == O_DEEP); set_pat(MEXT[0], op == O_DEEP);
		e = scc_init_existing_clustering(N, 2, EXT[0], op == O_DEEP, &s->c);
		if (e != SCC_ER_OK) vf_fail("init_existing: %s", vf_ecname(e));
		s->K = 2; s->ext = op == O_DEEP ? -1 : 0;
		set_pat(s->lab, op == O_DEEP);
		break;
	case O_ONE: case O_ONE_SHARED:
		if (s->c) return false;
		set_pat(EXT[0], 2); set_pat(MEXT[0], 2);
		e = scc_init_existing_clustering(N, 1, EXT[0], op == O_ONE, &s->c);
		if (e != SCC_ER_OK) vf_fail("init_existing with one cluster: %s", vf_ecname(e));
		s->K = 1; s->ext = op == O_ONE ? -1 : 0;
		set_pat(s->lab, 2);
		break;
	case O_COPY:
		if (s->c) return false;
		s->c = (scc_Clustering*) 8;
		e = scc_copy_clustering(o->c, &s->c);
		if (o->c == NULL) {
			if (e != SCC_ER_INVALID_INPUT || s->c != NULL) vf_fail("copying nothing gives %s", vf_ecname(e));
		} else {
			if (e != SCC_ER_OK || s->c == NULL || s->c == (scc_Clustering*) 8) vf_fail("copying gives %s", vf_ecname(e));
			s->K = o->K; s->ext = -1;
			if (o->K) memcpy(s->lab, model_lab(o), sizeof s->lab);
		}
		break;
	case O_FREE:
		scc_free_clustering(&s->c);
		if (s->c) vf_fail("the pointer is not reset by free");
		break;
	case O_WRITE:
		if (w) return false;
		set_pat(EXT[0], 1); set_pat(MEXT[0], 1);
		break;
	default: {
		const scc_ClusterOptions op_o = opts(op);
		if (s->c == NULL) {
			e = (op == O_HIER || op == O_HIER_LARGE) ? scc_hierarchical_clustering(DSA, 2, false, NULL) : scc_sc_clustering(DSA, &op_o, NULL);
			if (e != SCC_ER_INVALID_INPUT) vf_fail("clustering without an object gives %s", vf_ecname(e));
			break;
		}
		uint64_t K = 0;
		scc_Clabel exp[N];
		const scc_ErrorCode ee = fresh(op, s, model_lab(s), &K, exp);
		if (op == O_HIER || op == O_HIER_LARGE) e = scc_hierarchical_clustering(DSA, op == O_HIER ? 2 : N + 1, false, s->c);
		else e = scc_sc_clustering(op == O_SC_WRONG ? DSB : DSA, &op_o, s->c);
		if (e != ee) vf_fail("%s gives %s, on a fresh object %s", opn[op], vf_ecname(e), vf_ecname(ee));
		vf_validated();
		if (e == SCC_ER_OK) { s->K = K; memcpy(model_lab(s), exp, sizeof exp); }
		else if (s->ext >= 0 && s->K == 0) memcpy(MEXT[s->ext], EXT[s->ext], sizeof MEXT[0]); /* scratch contents of an array of an empty clustering */
		vf_outcome(vf_mix((uint64_t) op * 10 + (uint64_t) e, s->K));
		break; }
	}
	return true;
}

static void history(int depth, unsigned allowed)
{
	vf_set_describe(describe);
	nhist = 0;
	if (vf_fresh(1) || !DSA) {
		if (DSA) { scc_free_data_set(&DSA); scc_free_data_set(&DSB); }
		vf_backend_uninstall();
		if (scc_init_data_set(N, 1, N, PTS, &DSA) != SCC_ER_OK || scc_init_data_set(N - 1, 1, N - 1, PTS, &DSB) != SCC_ER_OK) vf_fail("could not make a data set");
	}
	const long live0 = vf_al.live;
	memset(SL, 0, sizeof SL);
	for (int b = 0; b < 2; ++b) {
		set_pat(MEXT[b], 0); set_pat(EXT[b], 0);
		for (int j = N; j < N + PAD; ++j) EXT[b][j] = GUARD;
	}
	int ops[N_OP], no = 0;
	for (int i = 0; i < N_OP; ++i) if (allowed & (1u << i)) ops[no++] = i;
	for (int d = 0; d < depth; ++d) {
		const int c = (int) vf_choose((unsigned) no * 2), op = ops[c / 2], w = c % 2;
		if (d == 2 && !vf_shard()) goto out;
		hist[nhist++] = op * 2 + w;
		if (!step(op, w)) goto out;
		vf_transition();
		for (int i = 0; i < 2; ++i) check_slot(i);
		for (int b = 0; b < 2; ++b) {
			for (int j = 0; j < N; ++j) if (EXT[b][j] != MEXT[b][j]) vf_fail("the caller's array %d holds %d at %d, %d expected", b, vf_lab(EXT[b][j]), j, vf_lab(MEXT[b][j]));
			for (int j = N; j < N + PAD; ++j) if (EXT[b][j] != GUARD) vf_fail("the caller's array %d was overrun", b);
		}
		vf_state(state_hash());
	}
	if (vf_want_sample()) vf_sample("history");
out:
	for (int i = 0; i < 2; ++i) scc_free_clustering(&SL[i].c);
	if (vf_al.live != live0) vf_fail("%ld blocks of memory leak", vf_al.live - live0);
}

#define ALL ((1u << N_OP) - 1)
static void q1(void) { history(4, ALL); }
static void q2(void) { history(6, 1u << O_EMPTY | 1u << O_EMPTY_E0 | 1u << O_SHARED | 1u << O_COPY | 1u << O_FREE | 1u << O_SC_PARTIAL | 1u << O_HIER); }
static void q3(void) { history(6, 1u << O_EMPTY | 1u << O_DEEP | 1u << O_COPY | 1u << O_FREE | 1u << O_SC | 1u << O_SC_INFEASIBLE | 1u << O_HIER_LARGE); }
static void t1(void) { history(5, ALL); }
static void t2(void) { history(7, 1u << O_EMPTY | 1u << O_EMPTY_E0 | 1u << O_SHARED | 1u << O_COPY | 1u << O_FREE | 1u << O_SC_PARTIAL | 1u << O_HIER); }
static void t3(void) { history(7, 1u << O_EMPTY_E1 | 1u << O_DEEP | 1u << O_COPY | 1u << O_FREE | 1u << O_SC | 1u << O_SC_INFEASIBLE | 1u << O_HIER_LARGE); }
static void q4(void) { history(5, 1u << O_ONE | 1u << O_ONE_SHARED | 1u << O_COPY | 1u << O_FREE | 1u << O_SC | 1u << O_HIER | 1u << O_HIER_LARGE); }
const vf_scenario vf_scenarios[] = { { "all-operations", q1, 0 }, { "sharing", q2, 0 }, { "failures", q3, 0 }, { "one-cluster", q4, 0 }, { "all-operations-5", t1, 1 }, { "sharing-7", t2, 1 }, { "failures-7", t3, 1 }, { 0 } };
