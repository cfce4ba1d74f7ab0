/* Interposed allocator, force-included when scclust is compiled for a check. */
#ifndef VF_ALLOC_H
#define VF_ALLOC_H
#include <stdlib.h>
#include <string.h>
#ifdef VF_SMALL_FAST16
/* counters that start over after three steps */
#include <stdint.h>
#undef UINT_FAST16_MAX
#define UINT_FAST16_MAX 3
#endif
#ifdef __cplusplus
extern "C" {
#endif
void* vf_malloc(size_t n);
void* vf_calloc(size_t n, size_t m);
void* vf_realloc(void* p, size_t n);
void vf_free(void* p);
#ifdef VF_MEMHOOKS
void* vf_memcpy(void* d, const void* s, size_t n);
void* vf_memmove(void* d, const void* s, size_t n);
void* vf_memset(void* d, int c, size_t n);
#define memcpy(d, s, n) vf_memcpy(d, s, n)
#define memmove(d, s, n) vf_memmove(d, s, n)
#define memset(d, c, n) vf_memset(d, c, n)
#endif
#ifdef __cplusplus
}
#endif
#ifndef VF_NO_REDIRECT
#define malloc(n) vf_malloc(n)
#define calloc(n, m) vf_calloc(n, m)
#define realloc(p, n) vf_realloc(p, n)
#define free(p) vf_free(p)
#endif
#endif
