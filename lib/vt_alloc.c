/* Allocator stand-in: linked with --wrap=malloc,calloc,realloc,free so that
 * every request made by the code under test passes here. */
#include "vt.h"

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

long vt_live;
uint64_t vt_allocs;
uint64_t vt_alloc_failed;
uint64_t vt_alloc_limit = 3ull << 30;
static long fail_in;      /* 0: never */
static bool fail_persist;

void *vt_raw_malloc(size_t n) { return __real_malloc(n); }
void *vt_raw_calloc(size_t n, size_t m) { return __real_calloc(n, m); }
void *vt_raw_realloc(void *p, size_t n) { return __real_realloc(p, n); }
void vt_raw_free(void *p) { __real_free(p); }

void vt_alloc_reset(void)
{
	vt_live = 0;
	fail_in = 0;
	fail_persist = false;
	vt_alloc_limit = 3ull << 30;
}

void vt_fail_nth(long n, bool persist)
{
	fail_in = n;
	fail_persist = persist;
}

void vt_fail_off(void)
{
	fail_in = 0;
}

static bool refuse(size_t a, size_t b)
{
	bool r = false;
	size_t n;
	__atomic_fetch_add(&vt_allocs, 1, __ATOMIC_RELAXED);
	if (fail_in > 0) {
		if (fail_in == 1) {
			r = true;
			if (!fail_persist) {
				fail_in = 0;
			}
		} else {
			fail_in--;
		}
	}
	if (__builtin_mul_overflow(a, b, &n) || n > vt_alloc_limit) {
		r = true;
	}
	if (r) {
		vt_alloc_failed++;
		errno = ENOMEM;
	}
	return r;
}

static void *made(void *p)
{
	if (p) {
		__atomic_fetch_add(&vt_live, 1, __ATOMIC_RELAXED);
	}
	return p;
}

void *__wrap_malloc(size_t n)
{
	return refuse(n, 1) ? NULL : made(__real_malloc(n));
}
void *__wrap_calloc(size_t n, size_t m)
{
	return refuse(n, m) ? NULL : made(__real_calloc(n, m));
}
void *__wrap_realloc(void *p, size_t n)
{
	void *q;
	if (refuse(n, 1)) {
		return NULL;
	}
	/* always move, so that stale pointers are caught */
	if (p == NULL) {
		return made(__real_malloc(n));
	}
	q = __real_realloc(p, n);
	return q;
}
void __wrap_free(void *p)
{
	if (p) {
		__atomic_fetch_sub(&vt_live, 1, __ATOMIC_RELAXED);
	}
	__real_free(p);
}
