/* Stateless model checker for scclust: a scenario is a function that draws every free
 * decision (inputs, options, environment answers, faults, schedules) from vf_choose();
 * the explorer runs it once for every sequence of choices. */
#ifndef VF_H
#define VF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifndef VF_NO_SCC
#include "include/scclust.h"
#include "include/scclust_spi.h"
#endif

/* ---- explorer ---- */
unsigned vf_choose(unsigned n);            /* 0..n-1 */
int vf_range(int lo, int hi);              /* lo..hi */
bool vf_shard(void);                       /* false: this prefix belongs to another shard, return at once */
int vf_pos(void);                          /* current position in the choice sequence */
bool vf_fresh(int pos);                    /* first run with the current prefix of length pos? */
extern int vf_tier;                        /* 0 quick, 1 thorough */
extern bool vf_replaying;
extern long vf_seed;

void vf_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void vf_error(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn)); /* harness error */
void vf_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  /* describe the current case (only evaluated when needed) */
typedef void (*vf_describe_fn)(void);
void vf_set_describe(vf_describe_fn fn);

void vf_state(uint64_t h);                 /* record a reached (input, result) state */
void vf_outcome(uint64_t h);               /* record an observed outcome */
void vf_transition(void);                  /* one library/environment step */
void vf_validated(void);                   /* an execution compared with the reference model */
void vf_nontrivial(uint64_t h);            /* fault/exploration levels: a distinct non-trivial case */
void vf_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool vf_want_sample(void);
void vf_digest(uint64_t h);                /* order-dependent digest compared across configurations */
void vf_heartbeat(void);

static inline uint64_t vf_mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 32;
	return h;
}

typedef struct { const char* name; void (*run)(void); int min_tier; } vf_scenario;
extern const vf_scenario vf_scenarios[];   /* supplied by each property file, NULL terminated */
extern const int vf_watchdog_seconds;

/* ---- allocator control ---- */
typedef struct {
	long count;        /* allocations since vf_alloc_arm */
	long fail1, fail2; /* 1-based indices that fail (0: none) */
	long sticky_from;  /* from this index on all fail (0: none) */
	long failed;       /* allocations failed so far */
	long live;         /* outstanding blocks */
	int fill;          /* -1: leave, otherwise fill byte for fresh memory */
	size_t biggest;    /* largest request seen */
} vf_alloc_state;
extern vf_alloc_state vf_al;
void vf_alloc_arm(long fail1, long fail2, long sticky);
void vf_alloc_disarm(void);
extern void (*vf_yield_hook)(int kind);    /* called at every allocator and SPI operation if set */
void* vf_malloc(size_t n);
void* vf_calloc(size_t n, size_t m);
void vf_free(void* p);

#ifndef VF_NO_SCC
/* ---- spaces: finite sets of points with distances ---- */
#define VF_MAXN 8
typedef struct {
	int n;
	bool coords;                 /* coordinates (builtin data set) or matrix */
	int dim;
	double* xy;                  /* n*dim, owned by the scenario */
	double D[VF_MAXN][VF_MAXN];  /* if !coords */
} vf_space;
double vf_dist(const vf_space* sp, int i, int j);

/* matrix backend for the distance SPI */
typedef struct {
	int magic;
	const vf_space* sp;
	int tiebreak;            /* 0 ascending index, 1 descending index, 2 query itself last */
	long calls;              /* fallible calls so far */
	long fail_at, fail_at2;  /* 1-based fallible call that reports failure */
	long failed;
	long close_calls, close_fail_at, close_failed;
	long check_calls, check_fail_at;
	long open_objs;
	long n_matrix, n_rows, n_maxinit, n_max, n_nninit, n_nn;
	size_t lie_n;            /* report this number of points (0: true) */
	void (*reenter)(void);   /* called inside every fallible call */
} vf_backend;
void vf_backend_init(vf_backend* b, const vf_space* sp, int tiebreak);
void vf_backend_install(void);
void vf_backend_uninstall(void);

/* ---- results ---- */
typedef struct {
	scc_ErrorCode ec;
	int n;
	long K;
	int* lab;       /* -1 for NA, -2 for out of int range */
} vf_result;
const char* vf_ecname(scc_ErrorCode ec);
bool vf_run_sc(void* ds, const vf_space* sp, const scc_ClusterOptions* o, vf_result* res); /* res->lab must hold n ints */
uint64_t vf_hash_result(const vf_result* r);
void vf_note_space(const vf_space* sp);
void vf_note_options(const scc_ClusterOptions* o, int n);
void vf_note_labels(const char* what, const int* lab, int n);
int vf_lab(scc_Clabel l);

/* ---- oracle ---- */
enum { OR_SIZE = 1, OR_TYPE = 2, OR_COMPLETE = 4, OR_RADIUS = 8, OR_CORE = 16, OR_ASSIGN = 32, OR_QUALITY = 64, OR_FEASIBLE = 128 };
typedef struct {
	const vf_space* sp;
	const scc_ClusterOptions* o;
	const char* primary;     /* n flags */
	const int* type;         /* n types or NULL */
} vf_problem;
/* Judge a result given the core (clusters before unassigned points are assigned). */
void vf_judge(const vf_problem* p, const vf_result* core, const vf_result* res, int flags);
/* expected error classes: bit mask of (1<<ec) that are acceptable for the core problem */
unsigned vf_expected(const vf_problem* p);
#endif
#endif
