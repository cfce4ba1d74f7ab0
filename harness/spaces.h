/* Enumeration of finite spaces, and the options, labels and results shared by the harnesses. */
#ifndef VF_SPACES_H
#define VF_SPACES_H
#include <math.h>
#include "vf.h"
#ifdef ANN
#include "ann_wrapper.h"
#endif

enum { K_WEAK, K_LEVELS, K_GRID1, K_GRID2, K_LARGE, K_CHAIN, K_DIM, K_ORDER };
/* scale: everything is multiplied by 2^200 or 2^-200 (which is exact, so no comparison may change) */
typedef struct { int kind, n_lo, n_hi, levels, tbs, scale; } spacecfg;

/* ---- state shared by the runs ---- */
#define BIGN 1200
static vf_space S;
static double XY[BIGN * 20];
static vf_backend B;
static scc_DataSet* DS;
static double radlist[16];
static int nrad;

/* coordinates are normally read by the built-in functions; with tbs < 0 the harness answers for them */
static bool on_backend;
static void* dataset(void) { return on_backend ? (void*) &B : (void*) DS; }

static void add_rad(double r)
{
	for (int i = 0; i < nrad; ++i) if (radlist[i] == r) return;
	if (nrad < 16) radlist[nrad++] = r;
}

static void fill_large(int fam, int n)
{
	uint32_t x = 12345u + (uint32_t) vf_seed * 7919u + (uint32_t) fam;
	S.n = n; S.coords = true; S.dim = 1;
	for (int i = 0; i < n; ++i) {
		switch (fam) {
		case 0: XY[i] = ldexp(1.0, i % 50) * (1 + i / 50); break;
		case 1: x = x * 1664525u + 1013904223u; XY[i] = (double) (x >> 20); break;
		case 2: XY[i] = (double) (i / 7); break;
		case 3: S.dim = 2; x = x * 1664525u + 1013904223u; XY[2 * i] = (double) (x >> 26); XY[2 * i + 1] = (double) ((x >> 18) & 63); break;
		case 4: XY[i] = (double) ((i * 37) % n); break;
		case 5: XY[i] = 5.0; break;
		case 7: S.dim = 2; for (int d = 0; d < 2; ++d) { x = x * 1664525u + 1013904223u; XY[2 * i + d] = (double) (x >> 8); } break;
		case 8: { /* a ring with noise: many pairs of points that are nearly farthest from each other */
			S.dim = 2; x = x * 1664525u + 1013904223u;
			const double r = 1e6 + (double) (x >> 16), t = 2.0 * 3.141592653589793 * (double) ((i * 37) % n) / (double) n;
			XY[2 * i] = floor(r * cos(t)); XY[2 * i + 1] = floor(r * sin(t)); break;
		}
		case 9: case 10: /* many dimensions, negative coordinates */
			S.dim = fam == 9 ? 5 : 19;
			for (int d = 0; d < S.dim; ++d) { x = x * 1664525u + 1013904223u; XY[S.dim * i + d] = (double) (x >> 27) - 16.0; }
			break;
		default: XY[i] = pow(1.5, i % 800) + (i >= 800); break;
		}
	}
}

/* returns false if the space is not admissible */
static bool choose_space(const spacecfg* c)
{
	S.xy = XY;
	nrad = 0;
	on_backend = c->tbs < 0 || c->kind == K_WEAK || c->kind == K_LEVELS;
#ifdef ANN
	if (on_backend || c->kind == K_ORDER || c->kind == K_CHAIN) return false; /* the trees need coordinates */
#endif
	if (c->kind == K_LARGE) {
		/* levels: number of families (six by default), n_lo: number of sizes if not the usual ones, n_hi: number beyond the usual ones */
		static const int ns[] = { 30, 101, 202, 330, 1010, 600 };
		static const int nsq[] = { 30, 101, 202, 330, 600, 1010 };
		int n = (c->n_hi ? nsq : ns)[vf_choose(c->n_lo ? (unsigned) c->n_lo : (vf_tier ? 5u : 4u) + (unsigned) c->n_hi)], fam = (int) vf_choose(c->levels ? (unsigned) c->levels : 6u);
		fill_large(fam, n);
		add_rad(fam == 0 ? 1024.0 : fam == 1 ? 40.0 : fam == 3 ? 3.0 : 2.0);
		B.tiebreak = 0;
	} else if (c->kind == K_DIM) {
		/* two points (three for few dimensions), dimensions n_lo to n_hi, coordinates -1, 0, 2, ... */
		static const double cs[] = { -1.0, 0.0, 2.0 };
		S.coords = true; S.dim = vf_range(c->n_lo, c->n_hi);
		S.n = S.dim < 4 ? vf_range(2, 3) : 2;
		for (int i = 0; i < S.n * S.dim; ++i) XY[i] = cs[vf_choose((unsigned) c->levels)];
		add_rad(1.0); add_rad(3.0);
		B.tiebreak = 0;
	} else if (c->kind == K_CHAIN) {
		/* points of even index in the middle, all distances among those of odd index */
		S.n = vf_range(c->n_lo / 2, c->n_hi / 2) * 2;
		S.coords = false;
		on_backend = true;
		const bool few = S.n > 6;
		for (int i = 0; i < S.n; ++i) for (int j = i; j < S.n; ++j) if (i % 2 == 0 && j % 2 == 0) S.D[i][j] = S.D[j][i] = i == j ? 0.0 : 4.0;
		for (int j = 1; j < S.n; j += 2) {
			for (int i = 0; i < S.n; i += 2) S.D[i][j] = S.D[j][i] = (few && i) ? S.D[0][j] : 5.0 + vf_choose(2);
			S.D[j][j] = 0.0;
			for (int i = 1; i < j; i += 2) S.D[i][j] = S.D[j][i] = 9.0 - (double) vf_choose((unsigned) c->levels);
		}
		for (int i = 0; i < S.n; ++i) for (int j = 0; j < S.n; ++j) for (int k = 0; k < S.n; ++k)
			if (S.D[i][j] + S.D[j][k] < S.D[i][k]) return false;
		add_rad(5.0);
		B.tiebreak = c->tbs > 1 ? (int) vf_choose((unsigned) c->tbs) : 0;
	} else if (c->kind == K_ORDER) {
		/* points on a line in every order (up to reflection), distances between adjacent ones from a few similar values */
		int at[16], left[16], m;
		double x = 0.0, pos[16];
		S.n = m = vf_range(c->n_lo, c->n_hi);
		S.coords = false;
		on_backend = true;
		for (int i = 0; i < m; ++i) left[i] = i;
		for (int i = 0; i < S.n; ++i, --m) {
			const int w = (int) vf_choose((unsigned) m);
			at[i] = left[w]; left[w] = left[m - 1];
		}
		if (at[0] > at[S.n - 1]) return false;
		for (int i = 0; i < S.n; ++i) { pos[at[i]] = x; if (i < S.n - 1) x += 10.0 + vf_choose((unsigned) c->levels); }
		for (int i = 0; i < S.n; ++i) for (int j = 0; j < S.n; ++j) S.D[i][j] = fabs(pos[i] - pos[j]);
		add_rad(10.0);
		B.tiebreak = c->tbs > 1 ? (int) vf_choose((unsigned) c->tbs) : 0;
	} else if (c->kind == K_WEAK || c->kind == K_LEVELS) {
		S.n = vf_range(c->n_lo, c->n_hi);
		S.coords = false;
		const int m = S.n * (S.n - 1) / 2;
		unsigned used = 0;
		/* in a weak order only the relations between the distances matter */
		const int lv = c->kind == K_WEAK ? (m < c->levels ? m : c->levels) : c->levels;
		const int base = c->kind == K_WEAK ? 6 : (c->levels == 4 ? -1 : 2);
		for (int i = 0; i < S.n; ++i) {
			S.D[i][i] = 0.0;
			for (int j = i + 1; j < S.n; ++j) {
				const int l = (int) vf_choose((unsigned) lv);
				used |= 1u << l;
				/* with four levels the lowest one is distance zero */
				S.D[i][j] = S.D[j][i] = (base < 0) ? (l == 0 ? 0.0 : l + 1.0) : (double) (base + l);
			}
		}
		if (c->kind == K_WEAK && (used & (used + 1))) return false;
		if (base < 0 && !(used & 1)) return false; /* the zero-free ones are explored elsewhere */
		for (int i = 0; i < S.n; ++i) for (int j = 0; j < S.n; ++j) for (int k = 0; k < S.n; ++k)
			if (S.D[i][j] + S.D[j][k] < S.D[i][k]) return false;
		for (int l = 0; l < lv; ++l) if (used & (1u << l)) {
			const double d = (base < 0) ? (l == 0 ? 0.5 : l + 1.0) : (double) (base + l);
			if (nrad == 0) add_rad(base < 0 ? d : d - 0.5);
			add_rad(d);
		}
		if (nrad > 4) { nrad = 4; }
		B.tiebreak = c->tbs > 1 ? (int) vf_choose((unsigned) c->tbs) : 0;
	} else {
		S.n = vf_range(c->n_lo, c->n_hi);
		S.coords = true;
		S.dim = c->kind == K_GRID1 ? 1 : 2;
		for (int i = 0; i < S.n * S.dim; ++i) XY[i] = (double) vf_choose((unsigned) c->levels);
		add_rad(0.5); add_rad(1.0); if (c->levels > 2 || c->kind == K_GRID2) add_rad(1.5);
		if (c->levels > 3) add_rad(2.0);
		B.tiebreak = 0;
	}
	if (c->scale) {
		const double f = vf_choose(2) ? 0x1p-200 : 0x1p200;
		for (int i = 0; i < nrad; ++i) radlist[i] *= f;
		if (S.coords) for (int i = 0; i < S.n * S.dim; ++i) XY[i] *= f;
		else for (int i = 0; i < S.n; ++i) for (int j = 0; j < S.n; ++j) S.D[i][j] *= f;
	}
	return true;
}

static uint64_t bits(double x)
{
	uint64_t b;
	memcpy(&b, &x, sizeof b);
	return b ^ b >> 40;
}

static bool setup_space(void)
{
	if (!on_backend) {
		if (DS) scc_free_data_set(&DS);
		if (scc_init_data_set((uint64_t) S.n, (uint32_t) S.dim, (size_t) (S.n * S.dim), XY, &DS) != SCC_ER_OK) vf_fail("could not make a data set");
		vf_backend_uninstall();
#ifdef ANN
		if (!scc_set_ann_dist_search()) vf_fail("the ANN functions were rejected");
#endif
	} else {
		const int tb = B.tiebreak;
		vf_backend_init(&B, &S, tb);
		vf_backend_install();
	}
	return true;
}

static uint64_t hash_space(void)
{
	uint64_t h = (uint64_t) S.n;
	for (int i = 0; i < S.n; ++i) {
		if (S.coords) for (int d = 0; d < S.dim; ++d) h = vf_mix(h, bits(XY[i * S.dim + d]));
		else for (int j = i + 1; j < S.n; ++j) h = vf_mix(h, bits(S.D[i][j]));
	}
	return vf_mix(h, (uint64_t) B.tiebreak);
}

static void note_space(void)
{
	vf_note_space(&S);
	if (on_backend) vf_note("ties between neighbors by %s; ", B.tiebreak == 0 ? "ascending index" : B.tiebreak == 1 ? "descending index" : "index, the point itself last");
}
#endif
