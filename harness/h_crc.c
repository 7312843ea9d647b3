/* R01: sc_crc32 against a bit by bit CRC-32C, in one call, in chains, and from
 * several threads. */
#include "vt.h"
#include "sc_crc32.h"
#include <pthread.h>
#include <sys/mman.h>

static uint32_t ref_byte(uint32_t c, unsigned char x)
{
	c ^= x;
	for (int i = 0; i < 8; i++) {
		c = (c >> 1) ^ ((c & 1) ? 0x82F63B78u : 0);
	}
	return c;
}
static uint32_t tab[256];
static uint32_t ref(uint32_t crc, const unsigned char *p, size_t n)
{
	uint32_t c = ~crc;
	while (n--) {
		c = tab[(c ^ *p++) & 0xff] ^ (c >> 8);
	}
	return ~c;
}

#ifdef GIANT
/* the raw value after so many zero bytes: a linear map, applied by squaring */
static uint32_t times(const uint32_t *m, uint32_t v)
{
	uint32_t r = 0;
	for (int i = 0; v; i++, v >>= 1) {
		r ^= v & 1 ? m[i] : 0;
	}
	return r;
}
static uint32_t zeros(uint32_t c, uint64_t n)
{
	uint32_t m[32], q[32];
	for (int i = 0; i < 32; i++) {
		m[i] = ref_byte(1u << i, 0);
	}
	for (; n; n >>= 1) {
		c = n & 1 ? times(m, c) : c;
		for (int i = 0; i < 32; i++) {
			q[i] = times(m, m[i]);
		}
		memcpy(m, q, sizeof(m));
	}
	return c;
}
/* more than 4 GiB of mostly zero bytes */
static void past(void)
{
	uint64_t n = (1ull << 32) + vt_below(100000), at[4], prev = 0;
	unsigned char *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	uint32_t init = (uint32_t) vt_rnd(), c = ~init, got;
	if (p == MAP_FAILED) {
		vt_die("mmap");
	}
	madvise(p, n, MADV_HUGEPAGE);
	at[0] = vt_below(100);
	at[1] = (1ull << 31) + vt_below(9000) - 4500;
	at[2] = (1ull << 32) - 1 - vt_below(50);
	at[3] = n - 1;
	for (int i = 0; i < 4; i++) {
		if (at[i] < prev) {
			continue;
		}
		p[at[i]] = (unsigned char) (1 + vt_below(255));
		c = ref_byte(zeros(c, at[i] - prev), p[at[i]]);
		prev = at[i] + 1;
	}
	c = ~zeros(c, n - prev);
	got = sc_crc32(init, p, n);
	vt_event(1);
	VT_CHECK(got == c, "crc(0x%x, %" PRIu64 " bytes) = 0x%x, expected 0x%x", init, n, got, c);
	vt_class("past-4-gib");
	vt_state(vt_hash(n, init));
	munmap(p, n);
}
#endif

void vt_setup(void)
{
	for (int i = 0; i < 256; i++) {
		tab[i] = ref_byte(0, (unsigned char) i);
	}
	if (ref(0, (const unsigned char *) "123456789", 9) != 0xE3069283u) {
		vt_die("reference is wrong");
	}
	sc_crc32_init();
}

static size_t pick(void)
{
	static const size_t edge[] = {8, 16, 24, 256, 512, 768, 776, 1024, 1536, 2048, 4096, 6144, 6152, 6912, 8192, 12288, 13056, 18432};
	switch (vt_below(5)) {
	case 0: return vt_below(40);
	case 1: case 2: {
		size_t e = edge[vt_below(sizeof(edge) / sizeof(edge[0]))];
		return (size_t) ((int64_t) e + vt_range(-17, 17) < 0 ? 0 : (int64_t) e + vt_range(-7, 17));
	}
	case 3: return vt_below(3000);
	default: return vt_below(vt_chance(1, 4) ? 60000 : 9000);
	}
}

struct job {
	const unsigned char *p;
	size_t n;
	uint32_t want[8], got[8];
	pthread_t t;
};
static void *worker(void *a)
{
	struct job *j = a;
	for (int i = 0; i < 8; i++) {
		j->got[i] = sc_crc32((uint32_t) i, j->p, j->n);
	}
	return NULL;
}

void vt_case(uint64_t cn)
{
	size_t n = pick(), off = vt_below(17), end = vt_below(2) ? 0 : vt_below(9);
	unsigned char *blk = vt_malloc(off + n + end + (off + n + end == 0)), *p = blk + off;
	uint32_t init = vt_chance(1, 2) ? 0 : vt_chance(1, 4) ? 0xffffffffu : (uint32_t) vt_rnd(), got, want;
	int style = (int) vt_below(5);
#ifdef GIANT
	past();
	vt_free(blk);
	return;
#endif
	(void) cn;
	if (cn % 1000 == 77) {
		vt_free(blk);
		n = (1 + vt_below(3)) * 65536 + vt_below(40) - 20 + pick();
		blk = vt_malloc(off + n + end);
		p = blk + off;
		vt_class("past-65536");
	}

	memset(blk, 0xee, off + n + end);
	for (size_t i = 0; i < n; i++) {
		p[i] = style == 0 ? 0 : style == 1 ? 0xff : style == 2 ? (unsigned char) (i == n / 2) : (unsigned char) vt_rnd();
	}
	unsigned char *copy = vt_malloc(n + 1);
	memcpy(copy, p, n);
	want = ref(init, p, n);
	if (n < 64) {
		uint32_t c = ~init;
		for (size_t i = 0; i < n; i++) {
			c = ref_byte(c, p[i]);
		}
		if (~c != want) {
			vt_die("reference disagrees with itself");
		}
	}
	got = sc_crc32(init, p, n);
	vt_log("crc(0x%x, %zu bytes at alignment %zu) -> 0x%x", init, n, (size_t) ((uintptr_t) p & 7), got);
	VT_CHECK(got == want, "crc(0x%x, %zu bytes, alignment %zu) = 0x%x, expected 0x%x", init, n, (size_t) ((uintptr_t) p & 7), got, want);
	/* any split gives the same */
	for (int k = 0; k < 3; k++) {
		size_t at = 0;
		int parts = 0;
		uint32_t c = init;
		while (at < n || parts == 0) {
			size_t l = vt_chance(1, 8) ? 0 : vt_chance(1, 2) ? vt_below(n - at + 1) : pick() % (n - at + 1);
			if (++parts > 30) {
				l = n - at;
			}
			vt_log("part of %zu at %zu", l, at);
			c = sc_crc32(c, p + at, l);
			at += l;
		}
		VT_CHECK(c == want, "crc of %zu bytes in %d parts = 0x%x, expected 0x%x", n, parts, c, want);
		if (parts > 1) {
			vt_class("chained");
		}
	}
	VT_CHECK(sc_crc32(init, n ? p : NULL, 0) == init, "crc of nothing changes the value");
	VT_CHECK(memcmp(copy, p, n) == 0, "the data was changed");
	vt_class_n("bytes", n);
	vt_class(n >= 6144 ? "long-blocks" : n >= 768 ? "short-blocks" : n >= 8 ? "words" : "tail-only");
	vt_class(((uintptr_t) p & 7) ? "unaligned" : "aligned");
#ifdef THREADS
	{
		struct job j[4];
		for (int t = 0; t < 4; t++) {
			size_t a = vt_below(n + 1);
			j[t].p = p + a;
			j[t].n = n - a;
			for (int i = 0; i < 8; i++) {
				j[t].want[i] = ref((uint32_t) i, j[t].p, j[t].n);
			}
		}
		for (int t = 0; t < 4; t++) {
			if (pthread_create(&j[t].t, NULL, worker, &j[t])) {
				vt_die("pthread_create");
			}
		}
		for (int t = 0; t < 4; t++) {
			pthread_join(j[t].t, NULL);
			for (int i = 0; i < 8; i++) {
				VT_CHECK(j[t].got[i] == j[t].want[i], "thread %d computed 0x%x, expected 0x%x", t, j[t].got[i], j[t].want[i]);
			}
		}
		vt_class("threads");
	}
#endif
	vt_state(vt_hash(vt_hash(n, off), (uint64_t) style));
	if (vt_want_sample() && n > 8) {
		vt_sample("%zu bytes at alignment %zu, initial value 0x%x: 0x%x in one call and in 3 random splits", n, (size_t) ((uintptr_t) p & 7), init, got);
	}
	vt_free(copy);
	vt_free(blk);
}
