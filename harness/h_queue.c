/* Q01: sc_queue against a plain double-ended sequence. */
#include "vt.h"

#ifdef LIMITED
#define SC_QUEUE_MAX (100ul)
#define LIMIT ((size_t) 128)
#else
#define LIMIT SIZE_MAX
#endif
#include "sc_queue.h"

#define STR_(x) #x
#define STR(x) STR_(x)
#define MODEL_MAX 50000

struct rec {
	uint64_t a;
	uint32_t b;
	char c[13];
};
sc_queue_def(struct rec, rec);
sc_queue_def(unsigned char, byte);

static struct rec mkrec(uint64_t v)
{
	struct rec r;
	memset(&r, 0, sizeof(r));
	r.a = v;
	r.b = (uint32_t) (v >> 7);
	r.c[v % 13] = (char) v;
	return r;
}
static bool rec_eq(struct rec a, struct rec b)
{
	return memcmp(&a, &b, sizeof(a)) == 0;
}
static const char *strs[] = {"", "a", "b", "aa", "zz", "hello", "world", "0", "1", "~"};
#define T int
#define NAME int
#define MK(v) ((int) (v))
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T unsigned int
#define NAME uint
#define MK(v) ((unsigned) (v))
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T long
#define NAME long
#define MK(v) ((long) (v))
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T long long
#define NAME ll
#define MK(v) ((long long) (v))
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T unsigned long
#define NAME ulong
#define MK(v) ((unsigned long) (v))
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T unsigned long long
#define NAME ull
#define MK(v) ((unsigned long long) (v))
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T uint32_t
#define NAME 32
#define MK(v) ((uint32_t) (v))
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T uint64_t
#define NAME 64
#define MK(v) ((uint64_t) (v))
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T double
#define NAME double
#define MK(v) ((double) (int64_t) (v) / 3.0)
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T const char *
#define NAME str
#define MK(v) (strs[(v) % 10])
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T void *
#define NAME ptr
#define MK(v) ((void *) (uintptr_t) (v))
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"
#define T struct rec
#define NAME rec
#define MK(v) (mkrec(v))
#define EQ(a, b) (rec_eq((a), (b)))
#include "queue_t.inc"
#define T unsigned char
#define NAME byte
#define MK(v) ((unsigned char) (v))
#define EQ(a, b) ((a) == (b))
#include "queue_t.inc"

void vt_case(uint64_t n)
{
	static void (*const fn[])(uint64_t) = {run_int, run_uint, run_long, run_ll, run_ulong, run_ull, run_32, run_64, run_double, run_str, run_ptr, run_rec, run_byte};
	fn[vt_mix(n) % (sizeof(fn) / sizeof(fn[0]))](n);
}
