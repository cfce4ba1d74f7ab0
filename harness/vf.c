#define _GNU_SOURCE
#define VF_NO_SCC
#define VF_NO_REDIRECT
#include "vf.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/time.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#define MAXCH 65536
/* The current choices are kept in a file that is mapped, so that they survive any way to die. */
typedef struct { int32_t pos; char scenario[124]; uint32_t ch[MAXCH]; } live_state;
static live_state live_here, *live = &live_here;
#define ch (live->ch)
#define pos (live->pos)
static uint32_t nopt[MAXCH];
static int len, changed_at;
static unsigned long shard_counter, shard_i, shard_n = 1;
static bool shard_ok, skipped;
int vf_tier;
bool vf_replaying;
long vf_seed;
static const char* out_path;
static const char* fail_path;
static const vf_scenario* cur;
static vf_describe_fn describe;
static bool in_fail;
static volatile unsigned long beat;
static double t_start, t_cap = 1e9;
static bool capped;

static unsigned long n_exec, n_trans, n_valid, n_states, n_outcomes, n_nontrivial, n_evals;
static uint64_t digest_acc = 0x1234567;

/* --- growing hash sets --- */
typedef struct { uint64_t* t; size_t cap, cnt; bool full; } hset;
static hset hs_state, hs_out, hs_nt;
static bool hs_add(hset* s, uint64_t h)
{
	if (h == 0) h = 1;
	if (s->cap == 0) { s->cap = 1 << 12; s->t = calloc(s->cap, 8); }
	if (s->cnt * 2 >= s->cap) {
		if (s->cap >= ((size_t) 1 << 24)) { s->full = true; return false; }
		size_t nc = s->cap * 4;
		uint64_t* nt = calloc(nc, 8);
		for (size_t i = 0; i < s->cap; ++i) if (s->t[i]) {
			size_t j = (size_t) s->t[i] & (nc - 1);
			while (nt[j]) j = (j + 1) & (nc - 1);
			nt[j] = s->t[i];
		}
		free(s->t); s->t = nt; s->cap = nc;
	}
	size_t j = (size_t) h & (s->cap - 1);
	while (s->t[j]) { if (s->t[j] == h) return false; j = (j + 1) & (s->cap - 1); }
	s->t[j] = h; ++s->cnt;
	return true;
}

static double now(void)
{
	struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
	return (double) ts.tv_sec + 1e-9 * (double) ts.tv_nsec;
}

unsigned vf_choose(unsigned n)
{
	if (n == 0) vf_error("vf_choose(0)");
	unsigned c;
	if (pos < len) {
		if (nopt[pos] == 0 && vf_replaying) nopt[pos] = n;
		if (nopt[pos] != n) vf_error("replay divergence at choice %d: %u options, had %u", pos, n, nopt[pos]);
		c = ch[pos];
		if (c >= n) vf_error("replay choice out of range");
	} else {
		if (len >= MAXCH) vf_error("too many choices");
		c = 0; ch[pos] = 0; nopt[pos] = n; ++len;
	}
	++pos;
	return c;
}
int vf_range(int lo, int hi) { return lo + (int) vf_choose((unsigned) (hi - lo + 1)); }
int vf_pos(void) { return pos; }
bool vf_fresh(int p) { return changed_at < p; }

bool vf_shard(void)
{
	if (vf_replaying) return true;
	if (changed_at < pos) { shard_ok = ((shard_counter++ % shard_n) == shard_i); }
	if (!shard_ok) skipped = true;
	return shard_ok;
}

void vf_state(uint64_t h) { if (hs_add(&hs_state, h)) ++n_states; }
void vf_outcome(uint64_t h) { if (hs_add(&hs_out, h)) ++n_outcomes; }
void vf_nontrivial(uint64_t h) { if (hs_add(&hs_nt, h)) ++n_nontrivial; }
void vf_transition(void) { ++n_trans; }
void vf_validated(void) { ++n_valid; }
void vf_heartbeat(void) { ++beat; }
void vf_set_describe(vf_describe_fn fn) { describe = fn; }

/* --- notes and samples --- */
static char notes[1 << 16];
static size_t notes_len;
void vf_note(const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	if (notes_len < sizeof notes - 1) {
		int w = vsnprintf(notes + notes_len, sizeof notes - notes_len, fmt, ap);
		if (w > 0) notes_len += (size_t) w;
		if (notes_len >= sizeof notes) notes_len = sizeof notes - 1;
	}
	va_end(ap);
}
void vf_digest(uint64_t h)
{
	digest_acc += vf_mix(h, (uint64_t) 77);
	static FILE* trace;
	static bool looked;
	if (!looked) { looked = true; const char* p = getenv("VF_TRACE"); if (p) trace = fopen(p, "w"); }
	if (trace) {
		notes_len = 0; notes[0] = 0;
		if (describe) describe();
		fprintf(trace, "%s=> %016llx\n", notes, (unsigned long long) h);
		notes_len = 0; notes[0] = 0;
	}
}
static char samples[8][2048];
static int nsamples;
static unsigned long next_sample = 30;
bool vf_want_sample(void) { return nsamples < 6 && n_exec >= next_sample; }
void vf_sample(const char* fmt, ...)
{
	if (nsamples >= 6) return;
	notes_len = 0; notes[0] = 0;
	if (describe) describe();
	char tmp[512];
	va_list ap; va_start(ap, fmt); vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap);
	snprintf(samples[nsamples++], sizeof samples[0], "%.400s: %.1600s", tmp, notes);
	next_sample = n_exec * 30 + 37;
	notes_len = 0; notes[0] = 0;
}

static void jstr(FILE* f, const char* s)
{
	fputc('"', f);
	for (; *s; ++s) {
		unsigned char c = (unsigned char) *s;
		if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
		else if (c < 32) fprintf(f, "\\u%04x", c);
		else if (c < 127) fputc(c, f);
		else fputc('?', f);
	}
	fputc('"', f);
}

static void write_report(const char* kind, const char* msg)
{
	FILE* f = fail_path ? fopen(fail_path, "w") : NULL;
	if (!f) f = stderr;
	fprintf(f, "{\"kind\": "); jstr(f, kind);
	fprintf(f, ", \"scenario\": "); jstr(f, cur ? cur->name : "?");
	fprintf(f, ", \"tier\": %d, \"choices\": [", vf_tier);
	for (int i = 0; i < pos; ++i) fprintf(f, "%s%u", i ? "," : "", ch[i]);
	fprintf(f, "], \"message\": "); jstr(f, msg);
	fprintf(f, ", \"case\": "); jstr(f, notes);
	fprintf(f, "}\n");
	if (f != stderr) fclose(f);
}

static void write_failure(const char* kind, const char* msg)
{
	if (in_fail) return;
	in_fail = true;
	notes_len = 0; notes[0] = 0;
	/* The choices first: the description may itself trip over broken state. */
	if (fail_path) write_report(kind, msg);
	if (describe && strcmp(kind, "error") != 0) describe();
	write_report(kind, msg);
}

void vf_fail(const char* fmt, ...)
{
	char msg[4096];
	va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
	write_failure("violation", msg);
	if (vf_replaying) fprintf(stderr, "violation: %s\n%s\n", msg, notes);
	_exit(3);
}

void vf_error(const char* fmt, ...)
{
	char msg[4096];
	va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
	fprintf(stderr, "harness error: %s\n", msg);
	write_failure("error", msg);
	_exit(4);
}

/* --- sanitizers and hangs --- */
void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));
static void on_death(void) { write_failure("crash", "sanitizer or fatal signal, see stderr"); }
static void on_signal(int s)
{
	(void) s;
	write_failure("crash", s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : "fatal signal");
	_exit(3);
}

static unsigned long last_beat;
static int still;
static void on_alarm(int s)
{
	(void) s;
	if (beat != last_beat) { last_beat = beat; still = 0; return; }
	if (++still * 5 >= vf_watchdog_seconds) {
		write_failure("hang", "no progress");
		_exit(5);
	}
}

static void run_one(void)
{
	pos = 0;
	++beat;
	describe = NULL;
	skipped = false;
	cur->run();
	if (!skipped) ++n_exec;
}

static void explore(const vf_scenario* s, double deadline)
{
	unsigned long rounds = 0;
	cur = s;
	snprintf(live->scenario, sizeof live->scenario, "%s", s->name);
	len = 0; changed_at = -1; shard_counter = 0; shard_ok = true;
	for (;;) {
		run_one();
		len = pos;
		while (len > 0 && ch[len - 1] + 1 >= nopt[len - 1]) --len;
		if (len == 0) break;
		++ch[len - 1];
		changed_at = len - 1;
		if ((++rounds & 31) == 0 && now() > deadline) { capped = true; break; }
	}
}

const char* __asan_default_options(void);
const char* __asan_default_options(void) { return "exitcode=3:allocator_may_return_null=1:handle_abort=1:detect_leaks=0:detect_stack_use_after_return=0"; }
const char* __ubsan_default_options(void);
const char* __ubsan_default_options(void) { return "exitcode=3:print_stacktrace=1"; }
const char* __tsan_default_options(void);
const char* __tsan_default_options(void) { return "exitcode=3:halt_on_error=1"; }

int main(int argc, char** argv)
{
	const char* only = NULL;
	const char* replay = NULL;
	static char replay_buf[1 << 20];
	setvbuf(stdout, NULL, _IOLBF, 0);
	for (int i = 1; i < argc; ++i) {
		if (!strcmp(argv[i], "--tier")) vf_tier = !strcmp(argv[++i], "thorough");
		else if (!strcmp(argv[i], "--shard")) sscanf(argv[++i], "%lu/%lu", &shard_i, &shard_n);
		else if (!strcmp(argv[i], "--out")) out_path = argv[++i];
		else if (!strcmp(argv[i], "--fail")) fail_path = argv[++i];
		else if (!strcmp(argv[i], "--scenario")) only = argv[++i];
		else if (!strcmp(argv[i], "--cap")) t_cap = atof(argv[++i]);
		else if (!strcmp(argv[i], "--seed")) vf_seed = atol(argv[++i]);
		else if (!strcmp(argv[i], "--replay")) { snprintf(replay_buf, sizeof replay_buf, "%s", argv[++i]); replay = replay_buf; }
		else { fprintf(stderr, "bad argument %s\n", argv[i]); return 4; }
	}
	if (fail_path && !replay) {
		char lp[4096];
		snprintf(lp, sizeof lp, "%s.live", fail_path);
		const int fd = open(lp, O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd >= 0 && ftruncate(fd, sizeof(live_state)) == 0) {
			void* m = mmap(NULL, sizeof(live_state), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (m != MAP_FAILED) live = m;
		}
		if (fd >= 0) close(fd);
	}
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
	else { signal(SIGSEGV, on_signal); signal(SIGABRT, on_signal); signal(SIGFPE, on_signal); signal(SIGBUS, on_signal); signal(SIGILL, on_signal); }
	signal(SIGALRM, on_alarm);
	struct itimerval it = { { 5, 0 }, { 5, 0 } };
	setitimer(ITIMER_REAL, &it, NULL);
	t_start = now();

	if (replay) {
		vf_replaying = true;
		for (const vf_scenario* s = vf_scenarios; s->name; ++s) if (!strcmp(s->name, only)) cur = s;
		if (!cur) { fprintf(stderr, "unknown scenario\n"); return 4; }
		len = 0;
		static uint32_t rc[MAXCH]; int rn = 0;
		for (char* q = strtok(replay_buf, ","); q; q = strtok(NULL, ",")) rc[rn++] = (uint32_t) strtoul(q, NULL, 10);
		/* Option counts are rediscovered: drive choices one by one. */
		extern void vf_set_replay(const uint32_t*, int);
		vf_set_replay(rc, rn);
		run_one();
		printf("replay completed without violation\n");
		return 0;
	}

	int total = 0, at = 0;
	for (const vf_scenario* s = vf_scenarios; s->name; ++s) total += (s->min_tier <= vf_tier) && !(only && strcmp(only, s->name));
	double per[64]; unsigned long ex[64]; const char* nm[64]; int ns = 0;
	for (const vf_scenario* s = vf_scenarios; s->name; ++s) {
		if (only && strcmp(only, s->name)) continue;
		if (s->min_tier > vf_tier) continue;
		double t0 = now(); unsigned long e0 = n_exec;
		++at;
		/* unused time carries over to the scenarios that follow */
		explore(s, t_start + t_cap * (0.6 + 0.4 * (double) at / (double) total));
		per[ns] = now() - t0; ex[ns] = n_exec - e0; nm[ns] = s->name; ++ns;
	}
	n_evals = n_exec;

	FILE* f = out_path ? fopen(out_path, "w") : stdout;
	fprintf(f, "{\"executions\": %lu, \"transitions\": %lu, \"validated\": %lu, \"states\": %lu, \"outcomes\": %lu, \"nontrivial\": %lu, \"capped\": %s, \"state_set_full\": %s, \"digest\": \"%016llx\", \"scenarios\": {",
	        n_exec, n_trans, n_valid, n_states, n_outcomes, n_nontrivial, capped ? "true" : "false", hs_state.full ? "true" : "false", (unsigned long long) digest_acc);
	for (int i = 0; i < ns; ++i) { fprintf(f, "%s", i ? ", " : ""); jstr(f, nm[i]); fprintf(f, ": {\"executions\": %lu, \"seconds\": %.2f}", ex[i], per[i]); }
	fprintf(f, "}, \"samples\": [");
	for (int i = 0; i < nsamples; ++i) { fprintf(f, "%s", i ? ", " : ""); jstr(f, samples[i]); }
	fprintf(f, "]}\n");
	if (f != stdout) fclose(f);
	return 0;
}

void vf_set_replay(const uint32_t* rc, int rn);
void vf_set_replay(const uint32_t* rc, int rn)
{
	/* mark option counts as unknown: nopt 0 means "accept what the scenario asks for" */
	for (int i = 0; i < rn; ++i) { ch[i] = rc[i]; nopt[i] = 0; }
	len = rn;
	changed_at = -1;
}
