/* PROP 17: the neighbor graph algebra. Every digraph with up to three vertices (four for the
 * unary operations), as ordered adjacency lists where the order matters, against sets of arcs. */
#include "vf.h"
#include "src/digraph_core.h"
#include "src/digraph_operations.h"
#include "src/scclust_types.h"

const int vf_watchdog_seconds = 20;

#ifndef ARC_LIMIT
#define ARC_LIMIT 0 /* otherwise: the arc type has been limited to this many arcs */
#endif
#define MV 4
#define MA (MV * MV + 4)

typedef struct { int n; int deg[MV]; int adj[MV][MV + 1]; } lists;
static lists G[3];
static int ng;
static char what[200];

static int total(const lists* g) { int t = 0; for (int v = 0; v < g->n; ++v) t += g->deg[v]; return t; }
static unsigned row(const lists* g, int v) { unsigned m = 0; for (int i = 0; i < g->deg[v]; ++i) m |= 1u << g->adj[v][i]; return m; }

static void describe(void)
{
	vf_note("%s; ", what);
	for (int k = 0; k < ng; ++k) {
		vf_note("graph %d:", k);
		for (int v = 0; v < G[k].n; ++v) {
			vf_note(" %d->{", v);
			for (int i = 0; i < G[k].deg[v]; ++i) vf_note("%s%d", i ? "," : "", G[k].adj[v][i]);
			vf_note("}");
		}
		vf_note("; ");
	}
}

/* every subset of the vertices as heads; ordered: every sequence without repetition */
static void choose_graph(lists* g, int n, bool ordered)
{
	g->n = n;
	for (int v = 0; v < n; ++v) {
		g->deg[v] = 0;
		if (!ordered) {
			const unsigned m = vf_choose(1u << n);
			for (int w = 0; w < n; ++w) if (m >> w & 1) g->adj[v][g->deg[v]++] = w;
		} else {
			unsigned used = 0;
			int left = n;
			while (left) {
				unsigned c = vf_choose((unsigned) left + 1);
				if (c == 0) break;
				int w = 0;
				for (;; ++w) { if (used >> w & 1) continue; if (--c == 0) break; }
				used |= 1u << w; --left;
				g->adj[v][g->deg[v]++] = w;
			}
		}
	}
}

static uint64_t hash_graph(uint64_t h, const lists* g)
{
	for (int v = 0; v < g->n; ++v) { h = vf_mix(h, (uint64_t) g->deg[v]); for (int i = 0; i < g->deg[v]; ++i) h = vf_mix(h, (uint64_t) g->adj[v][i]); }
	return h;
}

static iscc_Digraph build(const lists* g, int slack)
{
	iscc_Digraph d;
	const int t = total(g);
	if (iscc_init_digraph((size_t) g->n, (uintmax_t) (t + slack), &d) != SCC_ER_OK) vf_fail("could not make a graph");
	iscc_ArcIndex a = 0;
	d.tail_ptr[0] = 0;
	for (int v = 0; v < g->n; ++v) {
		for (int i = 0; i < g->deg[v]; ++i) d.head[a++] = (scc_PointIndex) g->adj[v][i];
		d.tail_ptr[v + 1] = a;
	}
	if (!iscc_digraph_is_initialized(&d) || !iscc_digraph_is_valid(&d)) vf_fail("a well-formed graph is called invalid");
	if (iscc_digraph_is_empty(&d) != (t == 0)) vf_fail("wrong answer to whether a graph is empty");
	return d;
}

static void same(const iscc_Digraph* d, const lists* g, const char* name)
{
	iscc_ArcIndex a = 0;
	if (d->tail_ptr[0] != 0) vf_fail("%s was changed", name);
	for (int v = 0; v < g->n; ++v) {
		for (int i = 0; i < g->deg[v]; ++i) if (d->head[a++] != (scc_PointIndex) g->adj[v][i]) vf_fail("%s was changed", name);
		if (d->tail_ptr[v + 1] != a) vf_fail("%s was changed", name);
	}
}

/* the arcs of d from each vertex must be exactly want[v]; at most once each */
static void expect_sets(const iscc_Digraph* d, int n, const unsigned* want, bool tight)
{
	if (!iscc_digraph_is_valid(d)) vf_fail("the resulting graph is not valid");
	if (d->vertices != (size_t) n) vf_fail("the resulting graph has %zu vertices", d->vertices);
	if (d->tail_ptr[0] != 0) vf_fail("the resulting graph does not start at zero");
	int t = 0;
	for (int v = 0; v < n; ++v) {
		unsigned m = 0;
		if (d->tail_ptr[v + 1] < d->tail_ptr[v]) vf_fail("the resulting graph has negative degree at %d", v);
		for (iscc_ArcIndex a = d->tail_ptr[v]; a < d->tail_ptr[v + 1]; ++a) {
			if (d->head[a] >= (scc_PointIndex) n) vf_fail("the resulting graph has an arc to %ld", (long) d->head[a]);
			const unsigned b = 1u << d->head[a];
			if (m & b) vf_fail("the resulting graph has the arc %d->%d twice", v, (int) d->head[a]);
			m |= b; ++t;
		}
		if (m != want[v]) vf_fail("the resulting graph has heads %#x from %d, %#x expected", m, v, want[v]);
	}
	if (d->max_arcs < (size_t) t) vf_fail("storage for %zu arcs holds %d arcs", d->max_arcs, t);
	(void) tight;
	uint64_t h = (uint64_t) n;
	for (int v = 0; v < n; ++v) h = vf_mix(h, want[v]);
	vf_outcome(h);
}

static void expect_seq(const iscc_Digraph* d, const lists* g)
{
	unsigned want[MV];
	for (int v = 0; v < g->n; ++v) want[v] = row(g, v);
	expect_sets(d, g->n, want, true);
	iscc_ArcIndex a = 0;
	for (int v = 0; v < g->n; ++v) for (int i = 0; i < g->deg[v]; ++i)
		if (d->head[a++] != (scc_PointIndex) g->adj[v][i]) vf_fail("the order of the arcs from %d has changed", v);
}

static void done(int k)
{
	uint64_t h = (uint64_t) k;
	for (int i = 0; i < ng; ++i) h = hash_graph(h, &G[i]);
	vf_state(h);
}

static long base_live;
static const int FILLS[] = { -1, 0x00, 0xff, 256 + 1, 512 + 1, 512 + 2 }; /* what fresh memory holds */
static const char* const FILLN[] = { "", ", fresh memory all zero", ", fresh memory all ones", ", fresh memory of 64-bit ones", ", fresh memory of 32-bit ones", ", fresh memory of 32-bit twos" };
#define NFILL 6
static void fresh(int graphs) { vf_al.fill = -1; ng = graphs; what[0] = 0; vf_set_describe(describe); base_live = vf_al.live; }
static void leak_check(void) { if (vf_al.live != base_live) vf_fail("%ld block(s) of memory leaked", vf_al.live - base_live); }

/* outcome of an operation that had the given faults; returns true if there is a result to look at */
static bool verdict(scc_ErrorCode ec, const iscc_Digraph* out, bool fault, int arcs)
{
	vf_transition();
	vf_validated();
#if ARC_LIMIT
	if (!fault) {
		if (arcs > ARC_LIMIT) { if (ec != SCC_ER_TOO_LARGE_PROBLEM) vf_fail("%d arcs with a limit of %d: %s", arcs, ARC_LIMIT, vf_ecname(ec)); return false; }
	} else if (ec == SCC_ER_TOO_LARGE_PROBLEM && arcs > ARC_LIMIT) return false;
#endif
	if (ec == SCC_ER_OK) return true;
	if (!fault || vf_al.failed == 0) vf_fail("unexpected %s", vf_ecname(ec));
	if (ec != SCC_ER_NO_MEMORY) vf_fail("%s when memory ran out", vf_ecname(ec));
	(void) out;
	return false;
}

static void unary(bool ordered, int lo, int hi)
{
	const int n = vf_range(lo, hi);
	fresh(1);
	choose_graph(&G[0], n, ordered);
	if (!vf_shard()) return;
#if ARC_LIMIT
	if (total(&G[0]) > ARC_LIMIT) return;
#endif
	static const int slacks[3] = { 0, 1, 3 };
	for (int s = 0; s < (ARC_LIMIT ? 1 : 3); ++s) {
		iscc_Digraph d = build(&G[0], slacks[s]);
		/* loops */
		sprintf(what, "delete self-loops, %d unused arcs of storage", slacks[s]);
		if (!verdict(iscc_delete_loops(&d), &d, false, 0)) return;
		lists w = G[0];
		for (int v = 0; v < n; ++v) { w.deg[v] = 0; for (int i = 0; i < G[0].deg[v]; ++i) if (G[0].adj[v][i] != v) w.adj[v][w.deg[v]++] = G[0].adj[v][i]; }
		if (total(&G[0]) == 0) { unsigned none[MV] = { 0 }; expect_sets(&d, n, none, false); } else expect_seq(&d, &w);
		iscc_free_digraph(&d);
		if (iscc_digraph_is_initialized(&d)) vf_fail("a freed graph counts as initialized");
		/* transpose */
		sprintf(what, "transpose, %d unused arcs of storage", slacks[s]);
		d = build(&G[0], slacks[s]);
		for (int f = 0; f < 2 + NFILL; ++f) {
			iscc_Digraph t, tt;
			const int fl = f < 3 ? 0 : f - 2;
			sprintf(what, "transpose, %d unused arcs of storage%s", slacks[s], FILLN[fl]);
			vf_al.fill = FILLS[fl];
			vf_alloc_arm(f < 3 ? f : 0, 0, 0);
			const scc_ErrorCode ec = iscc_digraph_transpose(&d, &t);
			vf_alloc_disarm();
			vf_al.fill = -1;
			if (verdict(ec, &t, f > 0 && f < 3, total(&G[0]))) {
				unsigned want[MV] = { 0 };
				for (int v = 0; v < n; ++v) for (int i = 0; i < G[0].deg[v]; ++i) want[G[0].adj[v][i]] |= 1u << v;
				expect_sets(&t, n, want, false);
				if (iscc_digraph_transpose(&t, &tt) != SCC_ER_OK) vf_fail("could not transpose again");
				for (int v = 0; v < n; ++v) want[v] = row(&G[0], v);
				expect_sets(&tt, n, want, false);
				iscc_free_digraph(&tt);
				iscc_free_digraph(&t);
			}
			same(&d, &G[0], "the transposed graph");
		}
		/* storage */
		sprintf(what, "change storage, %d unused arcs of storage", slacks[s]);
		for (int more = 0; more < 3; ++more) {
			const int target = total(&G[0]) + more;
			if (ARC_LIMIT && more) {
				const scc_ErrorCode ec = iscc_change_arc_storage(&d, ARC_LIMIT + (unsigned) more);
				if (ec != SCC_ER_TOO_LARGE_PROBLEM) vf_fail("storage beyond the limit: %s", vf_ecname(ec));
				same(&d, &G[0], "the graph");
				continue;
			}
			vf_alloc_arm(more == 1, 0, 0);
			const scc_ErrorCode ec = iscc_change_arc_storage(&d, (uintmax_t) target);
			const long failed = vf_al.failed;
			vf_alloc_disarm();
			if (ec == SCC_ER_OK ? (failed != 0 || d.max_arcs != (size_t) target) : !(failed && ec == SCC_ER_NO_MEMORY)) vf_fail("storage for %d arcs: %s, %zu", target, vf_ecname(ec), d.max_arcs);
			if (!iscc_digraph_is_valid(&d)) vf_fail("not valid after the storage was changed");
			same(&d, &G[0], "the graph");
		}
		iscc_free_digraph(&d);
		leak_check();
		/* an empty graph of the same size */
		iscc_Digraph e;
		if (iscc_empty_digraph((size_t) n, (uintmax_t) slacks[s], &e) != SCC_ER_OK || !iscc_digraph_is_valid(&e) || !iscc_digraph_is_empty(&e)) vf_fail("the empty graph is not empty");
		iscc_free_digraph(&e);
	}
	done(ordered);
}
static void s_unary(void) { unary(true, 1, 3); }
static void s_unary4(void) { unary(false, 4, 4); }

static void difference(int n, bool ordered)
{
	fresh(2);
	choose_graph(&G[0], n, ordered);
	if (!vf_shard()) return;
	choose_graph(&G[1], n, false);
#if ARC_LIMIT
	if (total(&G[0]) > ARC_LIMIT || total(&G[1]) > ARC_LIMIT) return;
#endif
	for (int fl = 0; fl < NFILL; ++fl) for (uint32_t max = 1; max <= (uint32_t) n + 1; ++max) {
		if (max == (uint32_t) n + 1) max = UINT32_MAX;
		sprintf(what, "graph 0 without graph 1, at most %lu arcs from each%s", (unsigned long) max, FILLN[fl]);
		iscc_Digraph a = build(&G[0], ARC_LIMIT ? 0 : 1), b = build(&G[1], 0);
		vf_al.fill = FILLS[fl];
		const scc_ErrorCode ec = iscc_digraph_difference(&a, &b, max);
		vf_al.fill = -1;
		vf_transition(); vf_validated();
		if (ec != SCC_ER_OK) vf_fail("unexpected %s", vf_ecname(ec));
		lists w = G[0];
		for (int v = 0; v < n; ++v) {
			const unsigned m = row(&G[1], v);
			w.deg[v] = 0;
			for (int i = 0; i < G[0].deg[v] && (uint32_t) w.deg[v] < max; ++i) if (!(m >> G[0].adj[v][i] & 1)) w.adj[v][w.deg[v]++] = G[0].adj[v][i];
		}
		if (total(&G[0]) == 0) { unsigned none[MV] = { 0 }; expect_sets(&a, n, none, false); } else expect_seq(&a, &w);
		same(&b, &G[1], "the subtracted graph");
		iscc_free_digraph(&a); iscc_free_digraph(&b);
		leak_check();
		if (max == UINT32_MAX) break;
	}
	done(10);
}
static void s_diff(void) { difference(vf_range(1, 3), false); }
static void s_diff_ord(void) { difference(3, true); }

static void unions(int n, int k, bool few_faults)
{
	fresh(k);
	for (int i = 0; i < k; ++i) { choose_graph(&G[i], n, false); if (i == 0 && !vf_shard()) return; }
	int greedy = 0;
	iscc_Digraph in[3];
	for (int i = 0; i < k; ++i) {
		greedy += total(&G[i]);
		if (ARC_LIMIT && total(&G[i]) > ARC_LIMIT) return;
	}
	for (int i = 0; i < k; ++i) in[i] = build(&G[i], i == 1 && !ARC_LIMIT ? 2 : 0);
	for (unsigned tails = 0; tails <= 1u << n; ++tails) { /* the last one: no restriction */
		scc_PointIndex t[MV];
		size_t nt = 0;
		for (int v = 0; v < n; ++v) if (tails >> v & 1) t[nt++] = (scc_PointIndex) v;
		if (tails == 1u << n) nt = 0;
		for (int keep = 0; keep < 2; ++keep) for (int f = 0; f < 5 + NFILL; ++f) {
			if (few_faults && f > 0 && f != 3 && f < 8) continue;
			const int fl = f < 6 ? 0 : f - 5;
			/* 0: none, 1-3: that allocation (the graph's arcs are the third), 4: all from the third on, 5: all */
			sprintf(what, "union of %d graphs, tails %#x%s, %s self-loops, allocation fault %d%s", k, tails, tails == 1u << n ? " (all)" : "", keep ? "with" : "without", f < 6 ? f : 0, FILLN[fl]);
			unsigned want[MV];
			int arcs = 0;
			for (int v = 0; v < n; ++v) {
				want[v] = 0;
				for (int i = 0; i < k; ++i) want[v] |= row(&G[i], v);
				if (!keep) want[v] &= ~(1u << v);
				if (tails < 1u << n && !(tails >> v & 1)) want[v] = 0;
				arcs += __builtin_popcount(want[v]);
			}
			iscc_Digraph out;
			vf_al.fill = FILLS[fl];
			vf_alloc_arm(f >= 1 && f <= 3 ? f : 0, 0, f == 4 ? 3 : f == 5 ? 1 : 0);
			const scc_ErrorCode ec = iscc_digraph_union_and_delete((uint_fast16_t) k, in, nt, tails == 1u << n ? NULL : t, keep, &out);
			vf_al.fail1 = vf_al.fail2 = vf_al.sticky_from = 0;
			vf_al.fill = -1;
			const bool ok = verdict(ec, &out, f > 0 && f < 6, arcs);
			vf_alloc_disarm();
			if (ok) { expect_sets(&out, n, want, true); iscc_free_digraph(&out); }
			for (int i = 0; i < k; ++i) same(&in[i], &G[i], "a graph of the union");
		}
	}
	(void) greedy;
	for (int i = 0; i < k; ++i) iscc_free_digraph(&in[i]);
	leak_check();
	done(20 + k);
}
static void s_union1(void) { unions(vf_range(1, 3), 1, false); }
static void s_union2(void) { unions(vf_range(1, 3), 2, vf_tier == 0); }
static void s_union3(void) { unions(2, 3, false); }

static void s_product(void)
{
	const int n = vf_range(1, 3);
	fresh(2);
	choose_graph(&G[0], n, false);
	if (!vf_shard()) return;
	choose_graph(&G[1], n, false);
	if (total(&G[0]) == 0 || total(&G[1]) == 0) return;
	if (ARC_LIMIT && (total(&G[0]) > ARC_LIMIT || total(&G[1]) > ARC_LIMIT)) return;
	iscc_Digraph a = build(&G[0], 0), b = build(&G[1], ARC_LIMIT ? 0 : 1);
	for (int loops = 0; loops < 2; ++loops) for (int f = 0; f < 5 + NFILL; ++f) {
		const int fl = f < 6 ? 0 : f - 5;
		sprintf(what, "product, %s the arcs of graph 1 itself, allocation fault %d%s", loops ? "with" : "without", f < 6 ? f : 0, FILLN[fl]);
		unsigned want[MV];
		int arcs = 0;
		for (int v = 0; v < n; ++v) {
			want[v] = loops ? row(&G[1], v) : 0;
			for (int i = 0; i < G[0].deg[v]; ++i) want[v] |= row(&G[1], G[0].adj[v][i]);
			want[v] &= ~(1u << v);
			arcs += __builtin_popcount(want[v]);
		}
		iscc_Digraph out;
		vf_al.fill = FILLS[fl];
		vf_alloc_arm(f >= 1 && f <= 3 ? f : 0, 0, f == 4 ? 3 : f == 5 ? 1 : 0);
		const scc_ErrorCode ec = iscc_adjacency_product(&a, &b, loops, &out);
		vf_al.fail1 = vf_al.fail2 = vf_al.sticky_from = 0;
		vf_al.fill = -1;
		const bool ok = verdict(ec, &out, f > 0 && f < 6, arcs);
		vf_alloc_disarm();
		if (ok) { expect_sets(&out, n, want, true); iscc_free_digraph(&out); }
		same(&a, &G[0], "graph 0"); same(&b, &G[1], "graph 1");
	}
	iscc_free_digraph(&a); iscc_free_digraph(&b);
	leak_check();
	done(30);
}

/* graphs as they may come out of a faulty computation: every one is recognized */
static iscc_Digraph MAL;
static void describe_malformed(void)
{
	vf_note("graph of %zu vertices, storage for %zu arcs, tail pointers", MAL.vertices, MAL.max_arcs);
	for (size_t v = 0; v <= MAL.vertices; ++v) vf_note(" %ld", (long) MAL.tail_ptr[v]);
	vf_note(", heads");
	for (size_t a = 0; a < MAL.max_arcs; ++a) vf_note(" %ld", (long) MAL.head[a]);
}

static void s_malformed(void)
{
	fresh(0);
	const int n = vf_range(1, vf_tier ? 4 : 3), m = vf_range(0, ARC_LIMIT ? 2 : 3);
	if (iscc_init_digraph((size_t) n, (uintmax_t) m, &MAL) != SCC_ER_OK) vf_fail("could not make a graph");
	uint64_t h = (uint64_t) (n * 10 + m);
	bool good = true;
	for (int v = 0; v <= n; ++v) {
		const int t = (int) vf_choose((unsigned) m + 2);
		MAL.tail_ptr[v] = (iscc_ArcIndex) t;
		h = vf_mix(h, (uint64_t) t);
		if (v == 0 ? t != 0 : (t < (int) MAL.tail_ptr[v - 1])) good = false;
	}
	if (MAL.tail_ptr[n] > (iscc_ArcIndex) m) good = false;
	for (int a = 0; a < m; ++a) {
		const int to = (int) vf_choose((unsigned) n + 2);
		MAL.head[a] = (scc_PointIndex) to;
		h = vf_mix(h, (uint64_t) to);
		if (a < (int) MAL.tail_ptr[n] && to >= n) good = false;
	}
	if (vf_shard()) {
		vf_set_describe(describe_malformed);
		if (!iscc_digraph_is_initialized(&MAL)) vf_fail("a graph that was made is not initialized");
		if (iscc_digraph_is_valid(&MAL) != good) vf_fail(good ? "a well-formed graph is called invalid" : "a malformed graph is called valid");
		vf_transition(); vf_validated();
		vf_state(h);
		vf_set_describe(describe);
	}
	iscc_free_digraph(&MAL);
	leak_check();
}

#if !ARC_LIMIT
/* ---- many vertices, and many arcs from each; reference: sorted lists of arcs ---- */
#define XA 2000000
static uint64_t W[XA], GOT[XA];
static iscc_Digraph XG[6];
static int xn, xvar;
static int cmpu(const void* a, const void* b) { const uint64_t x = *(const uint64_t*) a, y = *(const uint64_t*) b; return (x > y) - (x < y); }
static size_t uniq(uint64_t* a, size_t m) { qsort(a, m, sizeof *a, cmpu); size_t k = 0; for (size_t i = 0; i < m; ++i) if (k == 0 || a[k - 1] != a[i]) a[k++] = a[i]; return k; }
static void describe_big(void) { vf_note("%s of graphs with %d vertices, variant %d", what, xn, xvar); }

static size_t arcs_of(const iscc_Digraph* d, uint64_t* out)
{
	size_t k = 0;
	for (size_t v = 0; v < d->vertices; ++v) for (iscc_ArcIndex a = d->tail_ptr[v]; a < d->tail_ptr[v + 1]; ++a) { if (k == XA) vf_error("too many arcs"); out[k++] = (uint64_t) v << 32 | (uint64_t) d->head[a]; }
	return k;
}

static void expect_arcs(const iscc_Digraph* d, size_t want)
{
	if (!iscc_digraph_is_valid(d) || d->vertices != (size_t) xn) vf_fail("the result is not a graph with %d vertices", xn);
	if (d->max_arcs < (size_t) d->tail_ptr[xn]) vf_fail("storage for %zu arcs holds %zu", d->max_arcs, (size_t) d->tail_ptr[xn]);
	const size_t got = arcs_of(d, GOT);
	qsort(GOT, got, sizeof *GOT, cmpu);
	for (size_t i = 0; i < got && i < want; ++i) if (GOT[i] != W[i]) vf_fail("arc %zu in order is %lu->%lu, %lu->%lu expected", i, (unsigned long) (GOT[i] >> 32), (unsigned long) (GOT[i] & 0xffffffffu), (unsigned long) (W[i] >> 32), (unsigned long) (W[i] & 0xffffffffu));
	if (got != want) vf_fail("%zu arcs instead of %zu", got, want);
	vf_transition(); vf_validated();
}

static iscc_Digraph big_graph(int k)
{
	/* few arcs from each of many vertices, or many from each of few (more than 256); some without any, some with loops */
	const bool dense = xvar >= 2;
	iscc_Digraph d;
	const size_t most = dense ? 320u : 4u;
	if (iscc_init_digraph((size_t) xn, (uintmax_t) xn * most, &d) != SCC_ER_OK) vf_fail("could not make a graph");
	iscc_ArcIndex a = 0;
	uint32_t x = 7u + (uint32_t) (k * 100 + xvar);
	d.tail_ptr[0] = 0;
	for (int v = 0; v < xn; ++v) {
		const iscc_ArcIndex from = a;
		x = x * 1664525u + 1013904223u;
		int deg = v % 11 == k ? 0 : dense ? (v % 7 == 0 ? 300 : (int) ((x >> 8) % 20)) : (int) ((x >> 8) % 4);
		const int step = 1 + (int) ((x >> 16) % 5);
		for (int i = 0; i < deg; ++i) {
			const int to = (int) (((long) v * (k + 1) + (long) i * step + (v % 3 == 0 ? 0 : k)) % xn);
			bool dup = false;
			for (iscc_ArcIndex b = from; b < a && !dup; ++b) dup = d.head[b] == (scc_PointIndex) to;
			if (!dup) d.head[a++] = (scc_PointIndex) to;
		}
		d.tail_ptr[v + 1] = a;
	}
	if (!iscc_digraph_is_valid(&d)) vf_fail("a well-formed graph is called invalid");
	return d;
}

static void s_big(void)
{
	fresh(0);
	sprintf(what, "building");
	vf_set_describe(describe_big);
	xvar = (int) vf_choose(4);
	xn = xvar == 0 ? 70000 : xvar == 1 ? 3001 : xvar == 2 ? 700 : 401;
	const int op = (int) vf_choose(6);
	const int par = (int) vf_choose(4);
	if (!vf_shard()) return;
	for (int k = 0; k < 6; ++k) XG[k] = big_graph(k);
	static uint64_t keep[6];
	for (int k = 0; k < 6; ++k) { const size_t m = arcs_of(&XG[k], GOT); keep[k] = m; for (size_t i = 0; i < m; ++i) keep[k] = vf_mix(keep[k], GOT[i]); }
	size_t m = 0;
	iscc_Digraph out;
	int changed = -1;
	if (op == 0) {
		sprintf(what, "deleting loops");
		const size_t all = arcs_of(&XG[par], W);
		for (size_t i = 0; i < all; ++i) if (W[i] >> 32 != (W[i] & 0xffffffffu)) W[m++] = W[i];
		m = uniq(W, m);
		if (iscc_delete_loops(&XG[changed = par]) != SCC_ER_OK) vf_fail("failed");
		expect_arcs(&XG[par], m);
	} else if (op == 1) {
		sprintf(what, "transposing");
		m = arcs_of(&XG[par], W);
		for (size_t i = 0; i < m; ++i) W[i] = W[i] << 32 | W[i] >> 32;
		m = uniq(W, m);
		if (iscc_digraph_transpose(&XG[par], &out) != SCC_ER_OK) vf_fail("failed");
		expect_arcs(&out, m);
		iscc_free_digraph(&out);
	} else if (op == 2) {
		const int k = par == 3 ? 6 : par + 2;
		sprintf(what, "union of %d", k);
		static scc_PointIndex tails[70000];
		static char is[70000];
		size_t nt = 0;
		for (int loops = 0; loops < 2; ++loops) for (int some = 0; some < 2; ++some) {
			m = nt = 0;
			for (int v = 0; v < xn; ++v) { is[v] = !some || v % 3 != 1 || v > 65600; if (is[v]) tails[nt++] = (scc_PointIndex) v; }
			for (int i = 0; i < k; ++i) { const size_t c = arcs_of(&XG[i], GOT); for (size_t j = 0; j < c; ++j) if (is[GOT[j] >> 32] && (loops || GOT[j] >> 32 != (GOT[j] & 0xffffffffu))) { if (m == XA) vf_error("too many"); W[m++] = GOT[j]; } }
			m = uniq(W, m);
			if (iscc_digraph_union_and_delete((uint_fast16_t) k, XG, some ? nt : 0, some ? tails : NULL, loops, &out) != SCC_ER_OK) vf_fail("failed");
			expect_arcs(&out, m);
			iscc_free_digraph(&out);
		}
	} else if (op == 3) {
		static const uint32_t mx[] = { 1, 2, 255, 1000 };
		sprintf(what, "difference, at most %u heads,", mx[par]);
		for (int v = 0; v < xn; ++v) {
			uint32_t c = 0;
			for (iscc_ArcIndex a = XG[0].tail_ptr[v]; a < XG[0].tail_ptr[v + 1] && c < mx[par]; ++a) {
				bool in = false;
				for (iscc_ArcIndex b = XG[1].tail_ptr[v]; b < XG[1].tail_ptr[v + 1] && !in; ++b) in = XG[1].head[b] == XG[0].head[a];
				if (!in) { W[m++] = (uint64_t) v << 32 | (uint64_t) XG[0].head[a]; ++c; }
			}
		}
		m = uniq(W, m);
		if (iscc_digraph_difference(&XG[changed = 0], &XG[1], mx[par]) != SCC_ER_OK) vf_fail("failed");
		expect_arcs(&XG[0], m);
	} else {
		sprintf(what, "product (%d, %d), %s", par % 2, 2 + par / 2, op == 4 ? "with the arcs of the second" : "without");
		const iscc_Digraph* A = &XG[par % 2]; const iscc_Digraph* B = &XG[2 + par / 2];
		static unsigned char row_set[70000];
		for (int v = 0; v < xn; ++v) {
			const size_t m0 = m;
			#define PUT(w) do { const int w_ = (int) (w); if (w_ != v && !row_set[w_]) { row_set[w_] = 1; if (m == XA) vf_error("too many"); W[m++] = (uint64_t) v << 32 | (uint64_t) w_; } } while (0)
			if (op == 4) for (iscc_ArcIndex b = B->tail_ptr[v]; b < B->tail_ptr[v + 1]; ++b) PUT(B->head[b]);
			for (iscc_ArcIndex a = A->tail_ptr[v]; a < A->tail_ptr[v + 1]; ++a)
				for (iscc_ArcIndex b = B->tail_ptr[A->head[a]]; b < B->tail_ptr[A->head[a] + 1]; ++b) PUT(B->head[b]);
			for (size_t i = m0; i < m; ++i) row_set[W[i] & 0xffffffffu] = 0;
		}
		m = uniq(W, m);
		if (iscc_adjacency_product(A, B, op == 4, &out) != SCC_ER_OK) vf_fail("failed");
		expect_arcs(&out, m);
		iscc_free_digraph(&out);
	}
	for (int k = 0; k < 6; ++k) {
		if (k != changed) { const size_t c = arcs_of(&XG[k], GOT); uint64_t h = c; for (size_t i = 0; i < c; ++i) h = vf_mix(h, GOT[i]); if (h != keep[k]) vf_fail("graph %d was changed", k); }
		iscc_free_digraph(&XG[k]);
	}
	leak_check();
	const uint64_t h = vf_mix((uint64_t) xvar * 100 + (uint64_t) op * 10 + (uint64_t) par, m);
	vf_state(h); vf_outcome(h);
}
#endif

const vf_scenario vf_scenarios[] = {
#if !ARC_LIMIT
	{ "many vertices and arcs", s_big, 0 },
#endif
	{ "malformed graphs", s_malformed, 0 },
	{ "one graph, ordered arcs, up to 3 vertices", s_unary, 0 },
	{ "one graph, 4 vertices", s_unary4, 0 },
	{ "difference, up to 3 vertices", s_diff, 0 },
	{ "difference, ordered arcs, 3 vertices", s_diff_ord, 0 },
	{ "union of one graph", s_union1, 0 },
	{ "union of two graphs", s_union2, 0 },
	{ "union of three graphs, 2 vertices", s_union3, 0 },
	{ "product, up to 3 vertices", s_product, 0 },
	{ 0 }
};
