#define VF_NO_REDIRECT
#define VF_NO_SCC
#include <malloc.h>
#include "vf_alloc.h"
#include "vf.h"

vf_alloc_state vf_al = { .fill = -1 };
void (*vf_yield_hook)(int kind) = NULL;
void* (*vf_malloc_hook)(size_t n) = NULL;
bool (*vf_owned_hook)(const void* p) = NULL;
static size_t owned_size(const void* p) { return ((const size_t*) p)[-2] - 16; }

void vf_alloc_arm(long f1, long f2, long sticky)
{
	vf_al.count = 0; vf_al.failed = 0;
	vf_al.fail1 = f1; vf_al.fail2 = f2; vf_al.sticky_from = sticky;
}

void vf_alloc_disarm(void) { vf_al.fail1 = vf_al.fail2 = vf_al.sticky_from = 0; }

/* 0-255: that byte; 256 + w: 64-bit words of w; 512 + w: 32-bit words of w */
static void fill(void* p, size_t n)
{
	if (vf_al.fill < 0) return;
	if (vf_al.fill < 256) { memset(p, vf_al.fill, n); return; }
	const size_t unit = vf_al.fill < 512 ? 8 : 4;
	const unsigned char w = (unsigned char) (vf_al.fill & 255);
	memset(p, 0, n);
	for (size_t i = 0; i < n; i += unit) ((unsigned char*) p)[i] = w;
}

static bool should_fail(size_t n)
{
	++vf_al.count;
	if (n > vf_al.biggest) vf_al.biggest = n;
	if ((vf_al.count == vf_al.fail1) || (vf_al.count == vf_al.fail2) ||
	    (vf_al.sticky_from && vf_al.count >= vf_al.sticky_from)) {
		++vf_al.failed;
		return true;
	}
	if (n > ((size_t) 1 << 34)) { ++vf_al.failed; return true; }
	return false;
}

void* vf_malloc(size_t n)
{
	if (vf_yield_hook) vf_yield_hook(1);
	if (should_fail(n)) return NULL;
	if (vf_malloc_hook) { void* q = vf_malloc_hook(n); if (q) return q; }
	void* p = malloc(n ? n : 1);
	if (p) { ++vf_al.live; fill(p, n); }
	return p;
}

void* vf_calloc(size_t n, size_t m)
{
	if (vf_yield_hook) vf_yield_hook(1);
	size_t tot;
	if (__builtin_mul_overflow(n, m, &tot)) { ++vf_al.count; ++vf_al.failed; return NULL; }
	if (should_fail(tot)) return NULL;
	if (vf_malloc_hook) { void* q = vf_malloc_hook(tot); if (q) { memset(q, 0, tot); return q; } }
	void* p = calloc(1, tot ? tot : 1);
	if (p) ++vf_al.live;
	return p;
}

void* vf_realloc(void* q, size_t n)
{
	if (vf_yield_hook) vf_yield_hook(1);
	if (should_fail(n)) return NULL;
	if (vf_malloc_hook) {
		void* r = vf_malloc_hook(n);
		if (r) {
			if (q) { const size_t o = vf_owned_hook(q) ? owned_size(q) : malloc_usable_size(q); memcpy(r, q, o < n ? o : n); vf_free(q); }
			return r;
		}
	}
	/* Always move, so that stale pointers are noticed. */
	void* p = malloc(n ? n : 1);
	if (!p) return NULL;
	size_t old = q ? malloc_usable_size(q) : 0;
	fill(p, n);
	if (q) { memcpy(p, q, old < n ? old : n); free(q); } else ++vf_al.live;
	return p;
}

void vf_free(void* p)
{
	if (vf_yield_hook) vf_yield_hook(2);
	if (vf_owned_hook && vf_owned_hook(p)) return;
	if (p) { --vf_al.live; free(p); }
}
