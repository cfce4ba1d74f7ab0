/* C05: seed selection on every small neighbor graph, against the documented orders as
 * nondeterministic models (ties may be broken in any way). */
#include "vf.h"
#include "src/digraph_core.h"
#include "src/nng_findseeds.h"

const int vf_watchdog_seconds = 40;

typedef unsigned mask;
typedef struct { int n; unsigned degs; int shard_at; } cfg;

static int N, rev, cap0, nseeds;
static mask out[8], nb[8];     /* heads; closed neighborhoods */
static mask arcs;              /* vertices with arcs */
static scc_SeedMethod method;
static int seeds[64];
static bool done;
static uint64_t gh;
static iscc_ArcIndex tail[9];
static scc_PointIndex head[64];
static iscc_Digraph G;

static const char* const mname[] = { "LEXICAL", "BATCHES", "INWARDS_ORDER", "INWARDS_UPDATING", "EXCLUSION_ORDER", "EXCLUSION_UPDATING" };

static void describe(void)
{
	vf_note("graph on %d vertices:", N);
	for (int v = 0; v < N; ++v) { vf_note(" %d->{", v); for (int i = (int) tail[v]; i < (int) tail[v + 1]; ++i) vf_note("%s%d", i > (int) tail[v] ? "," : "", (int) head[i]); vf_note("}"); }
	vf_note("; method %s, initial capacity %d; ", mname[method], cap0);
	if (done) { vf_note("seeds:"); for (int i = 0; i < nseeds; ++i) vf_note(" %d", seeds[i]); }
}

static bool conflict(int a, int b) { return (nb[a] & nb[b]) != 0; }

static void check_valid(void)
{
	mask used = 0;
	for (int i = 0; i < nseeds; ++i) {
		if (seeds[i] < 0 || seeds[i] >= N) vf_fail("seed %d is not a vertex", seeds[i]);
		if (!(arcs >> seeds[i] & 1)) vf_fail("seed %d has no neighbors", seeds[i]);
		if (nb[seeds[i]] & used) vf_fail("the neighborhood of seed %d overlaps that of an earlier seed", seeds[i]);
		used |= nb[seeds[i]];
	}
	for (int v = 0; v < N; ++v) if ((arcs >> v & 1) && !(nb[v] & used)) vf_fail("vertex %d could be a seed too", v);
}

static void check_static_order(const int* key, const char* what)
{
	for (int i = 1; i < nseeds; ++i) if (key[seeds[i]] < key[seeds[i - 1]]) vf_fail("seed %d comes after seed %d although it has fewer %s", seeds[i], seeds[i - 1], what);
	for (int v = 0; v < N; ++v) {
		if (!(arcs >> v & 1)) continue;
		bool ok = false;
		for (int i = 0; i < nseeds; ++i) if ((seeds[i] == v || conflict(v, seeds[i])) && key[seeds[i]] <= key[v]) ok = true;
		if (!ok) vf_fail("vertex %d was passed over for a seed with more %s", v, what);
	}
}

static char memo[9][256];
static bool sim_inwards(int k, mask marked, mask examined)
{
	if (memo[k][examined]) return false;
	int best = 1000; mask cand = 0;
	for (int v = 0; v < N; ++v) {
		const mask bit = 1u << v;
		if (!(arcs & bit) || (marked & bit) || (examined & bit)) continue;
		int cnt = 0;
		for (int u = 0; u < N; ++u) if ((out[u] & bit) && !(marked & (1u << u)) && !(examined & (1u << u))) ++cnt;
		if (cnt < best) { best = cnt; cand = 0; }
		if (cnt == best) cand |= bit;
	}
	if (!cand) return k == nseeds;
	for (int v = 0; v < N; ++v) {
		if (!(cand >> v & 1)) continue;
		if (nb[v] & marked) { if (sim_inwards(k, marked, examined | 1u << v)) return true; }
		else if (k < nseeds && seeds[k] == v) { if (sim_inwards(k + 1, marked | nb[v], examined | 1u << v)) return true; }
	}
	memo[k][examined] = 1;
	return false;
}

static void judge(void)
{
	int key[8];
	vf_validated();
	check_valid();
	switch (method) {
	case SCC_SM_LEXICAL: {
		mask used = 0; int k = 0;
		for (int v = 0; v < N; ++v) if ((arcs >> v & 1) && !(nb[v] & used)) {
			if (k >= nseeds || seeds[k] != v) vf_fail("vertex %d is the next seed in order of index", v);
			used |= nb[v]; ++k;
		}
		break;
	}
	case SCC_SM_INWARDS_ORDER:
		for (int v = 0; v < N; ++v) { key[v] = 0; for (int u = 0; u < N; ++u) key[v] += out[u] >> v & 1; }
		check_static_order(key, "inwards pointing arcs");
		break;
	case SCC_SM_INWARDS_UPDATING:
		memset(memo, 0, sizeof memo);
		if (!sim_inwards(0, 0, 0)) vf_fail("no way to break ties gives these seeds when counting arcs from the vertices that remain");
		break;
	case SCC_SM_EXCLUSION_ORDER:
		for (int v = 0; v < N; ++v) { key[v] = 0; for (int u = 0; u < N; ++u) key[v] += (u != v && (arcs >> u & 1) && conflict(u, v)); }
		check_static_order(key, "edges in the exclusion graph");
		break;
	case SCC_SM_EXCLUSION_UPDATING: {
		mask alive = arcs;
		for (int i = 0; i < nseeds; ++i) {
			int best = 1000, own = -1;
			for (int v = 0; v < N; ++v) if (alive >> v & 1) {
				int c = 0;
				for (int u = 0; u < N; ++u) c += (u != v && (alive >> u & 1) && conflict(u, v));
				if (c < best) best = c;
				if (v == seeds[i]) own = c;
			}
			if (own < 0) vf_fail("seed %d was excluded already", seeds[i]);
			if (own > best) vf_fail("seed %d has %d edges to vertices that are not excluded, the fewest is %d", seeds[i], own, best);
			for (int u = 0; u < N; ++u) if (u == seeds[i] || conflict(u, seeds[i])) alive &= ~(1u << u);
		}
		break;
	}
	default: break;
	}
}

static void run_method(const iscc_Digraph* g)
{
	iscc_SeedResult r = { .capacity = (size_t) cap0, .count = 0, .seeds = NULL };
	const scc_ErrorCode ec = iscc_find_seeds(g, method, &r);
	vf_transition();
	if (ec != SCC_ER_OK) vf_fail("finding seeds failed with %s", vf_ecname(ec));
	if (r.count > 64) vf_fail("%zu seeds", r.count);
	nseeds = (int) r.count;
	for (int i = 0; i < nseeds; ++i) seeds[i] = (int) r.seeds[i];
	vf_free(r.seeds);
	done = true;
}

static void explore(const cfg* c)
{
	done = false;
	vf_set_describe(describe);
	mask subs[8][256]; int ns[8];
	const int n = N = c->n;
	for (int v = 0; v < n; ++v) {
		ns[v] = 0;
		for (mask m = 0; m < (1u << n); ++m) if (!(m >> v & 1) && (c->degs >> __builtin_popcount(m) & 1)) subs[v][ns[v]++] = m;
	}
	arcs = 0;
	int na = 0; (void) na;
	for (int v = 0; v < n; ++v) {
		out[v] = subs[v][vf_choose((unsigned) ns[v])];
		nb[v] = out[v] | 1u << v;
		if (out[v]) arcs |= 1u << v;
		if (v == c->shard_at && !vf_shard()) return;
	}
	if (!arcs) return;
	rev = (int) vf_choose(2);
	const int p = vf_pos();
	if (vf_fresh(p)) {
		int w = 0; tail[0] = 0;
		for (int v = 0; v < n; ++v) {
			for (int i = 0; i < n; ++i) { const int h = rev ? n - 1 - i : i; if (out[v] >> h & 1) head[w++] = (scc_PointIndex) h; }
			tail[v + 1] = (iscc_ArcIndex) w;
		}
		gh = (uint64_t) n;
		for (int i = 0; i < w; ++i) gh = vf_mix(gh, (uint64_t) head[i]);
		for (int v = 0; v < n; ++v) gh = vf_mix(gh, (uint64_t) tail[v]);
	}
	G = (iscc_Digraph) { .vertices = (size_t) n, .max_arcs = (size_t) tail[n], .head = head, .tail_ptr = tail };
	static const scc_SeedMethod ms[] = { SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING, SCC_SM_EXCLUSION_ORDER, SCC_SM_EXCLUSION_UPDATING };
	method = ms[vf_choose(5)];
	cap0 = rev ? 1 : n;
	run_method(&G);
	uint64_t h = vf_mix(gh, (uint64_t) method), r = 5;
	for (int i = 0; i < nseeds; ++i) r = vf_mix(r, (uint64_t) seeds[i]);
	judge();
	vf_state(vf_mix(h, r));
	vf_outcome(r);
	if (vf_want_sample()) vf_sample("explored");
}

/* Many seeds: the array of seeds grows. Disjoint components, so validity and maximality are counted. */
static void big(void)
{
	static scc_PointIndex hd[12000]; static iscc_ArcIndex tl[6001];
	static char used[6000];
	done = false; N = 0;
	const int n = vf_choose(2) ? 6000 : 2300, shape = (int) vf_choose(3);
	static const scc_SeedMethod ms[] = { SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING, SCC_SM_EXCLUSION_ORDER, SCC_SM_EXCLUSION_UPDATING };
	method = ms[vf_choose(5)];
	const size_t cap = vf_choose(2) ? 1 : (size_t) n;
	if (!vf_shard()) return;
	size_t w = 0;
	for (int v = 0; v < n; ++v) {
		tl[v] = (iscc_ArcIndex) w;
		if (shape == 0) hd[w++] = (scc_PointIndex) (v ^ 1);                              /* pairs */
		else if (shape == 1) hd[w++] = (scc_PointIndex) ((v + 1) % n);                   /* one cycle */
		else { if (v % 3 == 0) { hd[w++] = (scc_PointIndex) (v + 1 < n ? v + 1 : 0); hd[w++] = (scc_PointIndex) (v + 2 < n ? v + 2 : 1); } }
	}
	tl[n] = (iscc_ArcIndex) w;
	iscc_Digraph g = { .vertices = (size_t) n, .max_arcs = w, .head = hd, .tail_ptr = tl };
	iscc_SeedResult r = { .capacity = cap, .count = 0, .seeds = NULL };
	const scc_ErrorCode ec = iscc_find_seeds(&g, method, &r);
	vf_transition();
	if (ec != SCC_ER_OK) vf_fail("%s on a graph of %d vertices, shape %d: %s", mname[method], n, shape, vf_ecname(ec));
	memset(used, 0, sizeof used);
	for (size_t i = 0; i < r.count; ++i) {
		const size_t s = (size_t) r.seeds[i];
		if (s >= (size_t) n || tl[s] == tl[s + 1]) vf_fail("%s: vertex %zu of %d cannot be a seed (shape %d)", mname[method], s, n, shape);
		bool hit = used[s];
		for (size_t a = tl[s]; a < tl[s + 1]; ++a) hit = hit || used[hd[a]];
		if (hit) vf_fail("%s: seed %zu of %d overlaps an earlier seed (shape %d)", mname[method], s, n, shape);
		used[s] = 1;
		for (size_t a = tl[s]; a < tl[s + 1]; ++a) used[hd[a]] = 1;
	}
	for (int v = 0; v < n; ++v) {
		bool hit = used[v] || tl[v] == tl[v + 1];
		for (size_t a = tl[v]; a < tl[v + 1]; ++a) hit = hit || used[hd[a]];
		if (!hit) vf_fail("%s: vertex %d of %d could be another seed (shape %d)", mname[method], v, n, shape);
	}
	vf_validated();
	vf_state(vf_mix((uint64_t) n * 100 + (uint64_t) shape * 10 + (uint64_t) method, cap));
	vf_outcome(r.count);
	vf_free(r.seeds);
}

/* Medium sized graphs with vertices of many different degrees, the orders checked as above. */
#define MM 700
static int mn, mshape, mvar, mdeg[MM], mhead[MM][4], mseed[MM], mns, mkey[MM];
static unsigned char mconf[MM][MM], mmark[MM], mexam[MM];
static int mcnt[MM];
static long mnodes;

static void describe_medium(void)
{
	vf_note("graph of %d vertices, shape %d, variant %d, method %s; %d seeds:", mn, mshape, mvar, mname[method], mns);
	for (int i = 0; i < mns && i < 60; ++i) vf_note(" %d", mseed[i]);
}

/* -1: cannot be, 1: can be, 0: gave up */
static int msim(int k, int left)
{
	if (++mnodes > 20000) return 0;
	int undo[MM], nu = 0, res = -1;
	/* examining a vertex that is excluded only lowers counts: which of several tied ones comes first is tried in index order */
	int best = 1 << 30;
	for (int v = 0; v < mn; ++v) if (mdeg[v] && !mmark[v] && !mexam[v] && mcnt[v] < best) best = mcnt[v];
	if (best == 1 << 30) return k == mns ? 1 : -1;
	int opts[MM], no = 0;
	if (k < mns && !mmark[mseed[k]] && !mexam[mseed[k]] && mcnt[mseed[k]] == best) opts[no++] = mseed[k];
	for (int v = 0; v < mn; ++v) {
		if (!mdeg[v] || mmark[v] || mexam[v] || mcnt[v] != best) continue;
		bool hit = false;
		for (int a = 0; a < mdeg[v]; ++a) hit = hit || mmark[mhead[v][a]];
		if (hit) opts[no++] = v;
	}
	for (int o = 0; o < no && res < 0; ++o) {
		const int v = opts[o];
		bool hit = false;
		for (int a = 0; a < mdeg[v]; ++a) hit = hit || mmark[mhead[v][a]];
		nu = 0;
		mexam[v] = 1;
		for (int a = 0; a < mdeg[v]; ++a) --mcnt[mhead[v][a]];
		if (!hit) {
			for (int a = -1; a < mdeg[v]; ++a) {
				const int u = a < 0 ? v : mhead[v][a];
				if (mmark[u]) continue;
				mmark[u] = 1; undo[nu++] = u;
				if (!mexam[u]) for (int b = 0; b < mdeg[u]; ++b) --mcnt[mhead[u][b]];
			}
		}
		const int r = msim(hit ? k : k + 1, left - 1);
		if (r >= 0) return r;
		for (int i = nu - 1; i >= 0; --i) { const int u = undo[i]; mmark[u] = 0; if (!mexam[u]) for (int b = 0; b < mdeg[u]; ++b) ++mcnt[mhead[u][b]]; }
		for (int a = 0; a < mdeg[v]; ++a) ++mcnt[mhead[v][a]];
		mexam[v] = 0;
	}
	return -1;
}

static void medium(void)
{
	static scc_PointIndex hd[MM * 4]; static iscc_ArcIndex tl[MM + 1];
	mns = 0; mn = 0;
	vf_set_describe(describe_medium);
	mshape = (int) vf_choose(4); mvar = (int) vf_choose(vf_tier ? 24 : 6);
	static const scc_SeedMethod ms[] = { SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING, SCC_SM_EXCLUSION_ORDER, SCC_SM_EXCLUSION_UPDATING };
	method = ms[vf_choose(5)];
	if (!vf_shard()) return;
	const int n = mn = mshape == 3 ? 90 : 600 - mvar;
	uint32_t x = 99u + (uint32_t) mvar * 7919u + (uint32_t) vf_seed;
	#define RND(m) ((int) ((x = x * 1664525u + 1013904223u) >> 8) % (m))
	for (int v = 0; v < n; ++v) {
		mdeg[v] = 0;
		if (mshape == 0) { /* stars of sizes 1, 2, 3, ..., and a large one */
			int hub = 0, size = 1;
			while (hub + size <= v && size < 24) { hub += size; ++size; }
			const int h = v == hub ? (hub + 1) % n : hub;
			mhead[v][mdeg[v]++] = (h + mvar) % n == (v + mvar) % n ? (v + 1) % n : h;
		} else if (mshape == 1) { /* random, two heads, preferring small indices */
			for (int a = 0; a < 2; ++a) { int h; do { h = RND(n); h = (int) ((long) h * h / n); } while (h == v || (a && h == mhead[v][0])); mhead[v][mdeg[v]++] = h; }
		} else if (mshape == 2) { /* one or two heads, most of them the same */
			int h = v % 3 ? RND(5) : RND(n);
			if (h == v) h = (v + 1) % n;
			mhead[v][mdeg[v]++] = h;
			if (v % 5 == 0) { int g = RND(n); if (g != v && g != h) mhead[v][mdeg[v]++] = g; }
		} else { /* some without neighbors, three heads */
			if (v % 7) while (mdeg[v] < 3) { int h = RND(n); bool bad = h == v; for (int a = 0; a < mdeg[v]; ++a) bad = bad || mhead[v][a] == h; if (!bad) mhead[v][mdeg[v]++] = h; }
		}
	}
	size_t w = 0;
	for (int v = 0; v < n; ++v) { tl[v] = (iscc_ArcIndex) w; for (int a = 0; a < mdeg[v]; ++a) hd[w++] = (scc_PointIndex) mhead[v][a]; }
	tl[n] = (iscc_ArcIndex) w;
	iscc_Digraph g = { .vertices = (size_t) n, .max_arcs = w, .head = hd, .tail_ptr = tl };
	iscc_SeedResult r = { .capacity = mvar % 2 ? 1 : (size_t) n, .count = 0, .seeds = NULL };
	const scc_ErrorCode ec = iscc_find_seeds(&g, method, &r);
	vf_transition();
	if (ec != SCC_ER_OK) vf_fail("finding seeds failed with %s", vf_ecname(ec));
	if (r.count == 0 || r.count > (size_t) n) vf_fail("%zu seeds", r.count);
	mns = (int) r.count;
	for (int i = 0; i < mns; ++i) mseed[i] = (int) r.seeds[i];
	vf_free(r.seeds);
	for (int v = 0; v < n; ++v) {
		static unsigned char in[MM];
		memset(in, 0, sizeof in);
		in[v] = 1;
		for (int a = 0; a < mdeg[v]; ++a) in[mhead[v][a]] = 1;
		for (int u = 0; u < n; ++u) { bool hit = in[u]; for (int a = 0; a < mdeg[u]; ++a) hit = hit || in[mhead[u][a]]; mconf[v][u] = (u != v) && hit && mdeg[u] && mdeg[v]; }
	}
	static unsigned char blocked[MM];
	memset(blocked, 0, sizeof blocked);
	for (int i = 0; i < mns; ++i) {
		const int s = mseed[i];
		if (s < 0 || s >= n || !mdeg[s]) vf_fail("vertex %d cannot be a seed", s);
		if (blocked[s]) vf_fail("seed %d overlaps an earlier seed", s);
		blocked[s] = 1;
		for (int u = 0; u < n; ++u) if (mconf[s][u]) blocked[u] = 1;
	}
	for (int v = 0; v < n; ++v) if (mdeg[v] && !blocked[v]) vf_fail("vertex %d could be a seed too", v);
	for (int v = 0; v < n; ++v) { mkey[v] = method == SCC_SM_LEXICAL ? v : 0; mcnt[v] = 0; }
	for (int v = 0; v < n; ++v) for (int a = 0; a < mdeg[v]; ++a) ++mcnt[mhead[v][a]];
	if (method == SCC_SM_INWARDS_ORDER) memcpy(mkey, mcnt, sizeof mkey);
	if (method == SCC_SM_EXCLUSION_ORDER) for (int v = 0; v < n; ++v) for (int u = 0; u < n; ++u) mkey[v] += mconf[v][u];
	if (method == SCC_SM_INWARDS_UPDATING) {
		memset(mmark, 0, sizeof mmark); memset(mexam, 0, sizeof mexam); mnodes = 0;
		const int can = msim(0, n);
		vf_outcome((uint64_t) (can + 7));
		if (can > 0) vf_validated();
		if (can < 0) vf_fail("no way to break ties gives these seeds when counting arcs from the vertices that remain");
	} else if (method == SCC_SM_EXCLUSION_UPDATING) {
		static unsigned char gone[MM];
		for (int v = 0; v < n; ++v) gone[v] = !mdeg[v];
		for (int i = 0; i < mns; ++i) {
			int best = 1 << 30, own = 0;
			for (int v = 0; v < n; ++v) if (!gone[v]) {
				int c = 0;
				for (int u = 0; u < n; ++u) c += !gone[u] && mconf[v][u];
				if (c < best) best = c;
				if (v == mseed[i]) own = c;
			}
			if (own > best) vf_fail("seed %d has %d edges to vertices that are not excluded, the fewest is %d", mseed[i], own, best);
			for (int u = 0; u < n; ++u) if (u == mseed[i] || mconf[mseed[i]][u]) gone[u] = 1;
		}
	} else {
		for (int i = 1; i < mns; ++i) if (mkey[mseed[i]] < mkey[mseed[i - 1]]) vf_fail("seed %d comes after seed %d", mseed[i], mseed[i - 1]);
		for (int v = 0; v < n; ++v) {
			bool ok = !mdeg[v];
			for (int i = 0; i < mns && !ok; ++i) ok = (mseed[i] == v || mconf[v][mseed[i]]) && mkey[mseed[i]] <= mkey[v];
			if (!ok) vf_fail("vertex %d was passed over for a later one", v);
		}
	}
	vf_validated();
	uint64_t h = (uint64_t) (mshape * 1000 + mvar * 10 + (int) method);
	vf_state(h);
	for (int i = 0; i < mns; ++i) h = vf_mix(h, (uint64_t) mseed[i]);
	vf_outcome(h);
}

#define SC(name, ...) static void name(void) { static const cfg c = { __VA_ARGS__ }; explore(&c); }
#define D(k) (1u << (k))
SC(s1, 4, D(0) | D(1) | D(2) | D(3), 1)
SC(s2, 5, D(0) | D(1), 2)
SC(s3, 5, D(0) | D(2), 2)
SC(s4, 5, D(0) | D(1) | D(2), 2)
SC(s5, 6, D(0) | D(1), 2)
SC(s6, 6, D(2), 2)
SC(s7, 6, D(3), 2)
SC(s8, 7, D(1), 2)
SC(t1, 5, D(0) | D(1) | D(2) | D(3) | D(4), 2)
SC(t2, 6, D(0) | D(2), 2)
SC(t3, 6, D(0) | D(3), 2)
SC(t4, 7, D(0) | D(1), 2)
SC(t5, 8, D(1), 3)
const vf_scenario vf_scenarios[] = { { "all-graphs-4", s1, 0 }, { "size2-n5", s2, 0 }, { "size3-n5", s3, 0 }, { "mixed-n5", s4, 0 }, { "size2-n6", s5, 0 }, { "size3-n6", s6, 0 }, { "size4-n6", s7, 0 }, { "size2-n7", s8, 0 }, { "many-seeds", big, 0 }, { "medium", medium, 0 },
	{ "all-graphs-5", t1, 1 }, { "size3-n6-primary", t2, 1 }, { "size4-n6-primary", t3, 1 }, { "size2-n7-primary", t4, 1 }, { "size2-n8", t5, 1 }, { 0 } };
