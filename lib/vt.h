/* Support library shared by all monitors in /verif/harness. */
#ifndef VT_H
#define VT_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* ---- run parameters ---- */
extern uint64_t vt_seed;      /* VERIF_SEED */
extern bool vt_thorough;      /* tier */
extern bool vt_verbose;       /* replaying one case */
extern uint64_t vt_case_no;   /* current case */
extern const char *vt_tmpdir; /* scratch directory of this process */

/* ---- provided by each monitor ---- */
void vt_setup(void);           /* once per process (weak default) */
void vt_case(uint64_t n);      /* one independent case */

/* ---- deterministic randomness ---- */
typedef struct {
	uint64_t s;
} vt_rng;
extern vt_rng vt_r; /* generator of the current case (main thread) */
static inline uint64_t vt_mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline uint64_t vt_rnd_r(vt_rng *r)
{
	uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline uint64_t vt_below_r(vt_rng *r, uint64_t n)
{
	return n == 0 ? 0 : vt_rnd_r(r) % n;
}
static inline uint64_t vt_rnd(void) { return vt_rnd_r(&vt_r); }
static inline uint64_t vt_below(uint64_t n) { return vt_below_r(&vt_r, n); }
static inline int64_t vt_range(int64_t lo, int64_t hi)
{
	return lo + (int64_t) vt_below((uint64_t) (hi - lo) + 1);
}
static inline bool vt_chance(unsigned num, unsigned den)
{
	return vt_below(den) < num;
}
uint64_t vt_edge64(void);              /* boundary-biased 64-bit value */
uint64_t vt_edge_r(vt_rng *r);
uint64_t vt_size(uint64_t max);        /* small-biased size in [0,max] */

/* ---- what was observed ---- */
void vt_event(uint64_t n);             /* n oracle decisions taken */
void vt_state(uint64_t h);             /* a (hashed) distinct behaviour seen */
void vt_class(const char *name);       /* named coverage class seen */
void vt_class_n(const char *name, uint64_t n);
void vt_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool vt_want_sample(void);
static inline uint64_t vt_hash(uint64_t h, uint64_t v)
{
	return vt_mix(h ^ (v * 0xff51afd7ed558ccdull) ^ 0x1234567);
}
uint64_t vt_hash_bytes(uint64_t h, const void *p, size_t n);

/* ---- trace and verdict ---- */
void vt_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vt_log_reset(void);
#define VT_FAIL_EXIT 70
#define VT_DIE_EXIT 80
_Noreturn void vt_fail_at(const char *key, const char *file, int line,
			  const char *fmt, ...)
	__attribute__((format(printf, 4, 5)));
_Noreturn void vt_die(const char *fmt, ...)
	__attribute__((format(printf, 1, 2)));
#define vt_fail(...) vt_fail_at("-", __FILE__, __LINE__, __VA_ARGS__)
#define vt_fail_key(key, ...) vt_fail_at(key, __FILE__, __LINE__, __VA_ARGS__)
#define VT_CHECK(cond, ...)                                                    \
	do {                                                                   \
		vt_event(1);                                                   \
		if (!(cond)) {                                                 \
			vt_fail(__VA_ARGS__);                                  \
		}                                                              \
	} while (0)

/* ---- memory of the monitor itself (never counted, never failing) ---- */
void *vt_malloc(size_t n);
void *vt_calloc(size_t n, size_t m);
void *vt_realloc(void *p, size_t n);
void vt_free(void *p);

/* ---- allocator stand-in seen by the code under test (vt_alloc.c) ---- */
extern long vt_live;              /* blocks handed out and not released */
extern uint64_t vt_allocs;        /* requests made */
extern uint64_t vt_alloc_failed;  /* requests refused */
extern uint64_t vt_alloc_limit;   /* requests above this are refused */
void vt_fail_nth(long n, bool persist); /* refuse the n-th next request */
void vt_fail_off(void);

uint64_t vt_now_us(void);
char *vt_hex(const void *p, size_t n); /* static buffers, for messages */
char *vt_quote(const void *p, size_t n);

/* raw libc calls for the monitor when calls are wrapped */
int vt_fd_count(void); /* open descriptors of this process */

#endif
