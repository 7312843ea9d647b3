/* Containers and parsers holding more than 16, 24, 31 or 32 bits can count, in
 * elements or in bytes. One of ARRAY, QUEUE, HEAP, MAP, URI, INI, TOKEN. */
#include "vt.h"
#include <sys/mman.h>
#include <unistd.h>

#define G32 (1ull << 32)

static unsigned char b8(uint64_t i) { return (unsigned char) ((i * 0x9e3779b97f4a7c15ull) >> 56); }

#if defined(URI) || defined(INI)
/* read-only text of any length: one file mapped again and again */
#define TILE (1ull << 20)
static char *tiles_make(const char *unit, size_t unit_len, uint64_t span)
{
	char path[512], *t, *m;
	snprintf(path, sizeof(path), "%s/tile", vt_tmpdir);
	FILE *f = fopen(path, "w+b");
	if (!f || ftruncate(fileno(f), TILE) != 0) {
		vt_die("tile");
	}
	t = mmap(NULL, TILE, PROT_READ | PROT_WRITE, MAP_SHARED, fileno(f), 0);
	for (size_t i = 0; i < TILE; i++) {
		t[i] = unit[i % unit_len];
	}
	munmap(t, TILE);
	m = mmap(NULL, span + TILE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (uint64_t o = 0; o < span; o += TILE) {
		if (mmap(m + o, TILE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fileno(f), 0) == MAP_FAILED) {
			vt_die("map");
		}
	}
	fclose(f);
	unlink(path);
	return m;
}
#endif

#ifdef ARRAY
#include "sc_array.h"
struct page {
	uint64_t no;
	char rest[4088];
};
sc_array_def(unsigned char, byte);
sc_array_def(struct page, page);

static void bytes(uint64_t n)
{
	struct sc_array_byte a;
	uint64_t i = 0, sum = 0, want = 0;
	unsigned char e;

	sc_array_init(&a);
	for (i = 0; i < n; i++) {
		unsigned char v = b8(i);
		sc_array_add(&a, v);
		if (sc_array_oom(&a)) {
			vt_fail("byte: add refused at size %" PRIu64 " although memory was available", i);
		}
		sum += v;
	}
	VT_CHECK(sc_array_size(&a) == n, "byte: size %zu, expected %" PRIu64, (size_t) sc_array_size(&a), n);
	for (i = 0; i < 200000; i++) {
		uint64_t p = i < 100 ? i : i < 200 ? n - 1 - (i - 100) : i < 300 && n > G32 ? G32 - 50 + (i - 200) : vt_below(n);
		if (p < n && sc_array_at(&a, p) != b8(p)) {
			vt_fail("byte: wrong element at %" PRIu64 " of %" PRIu64, p, n);
		}
	}
	i = 0;
	sc_array_foreach (&a, e) {
		want += e;
		i++;
	}
	VT_CHECK(i == n && want == sum, "byte: loop visited %" PRIu64 " of %" PRIu64 " elements", i, n);
	/* delete close to the end, in the order and not */
	uint64_t p = n - 1 - vt_below(1000);
	sc_array_del(&a, p);
	for (i = n - 1500; i < n - 1; i++) {
		VT_CHECK(sc_array_at(&a, i) == b8(i < p ? i : i + 1), "byte: delete at %" PRIu64 " of %" PRIu64, p, n);
	}
	unsigned char l = sc_array_last(&a);
	uint64_t q = n - 1200 - vt_below(100);
	sc_array_del_unordered(&a, q);
	VT_CHECK(sc_array_at(&a, q) == l && sc_array_size(&a) == n - 2, "byte: unordered delete at %" PRIu64 " of %" PRIu64, q, n);
	sc_array_del_last(&a);
	VT_CHECK(sc_array_size(&a) == n - 3, "byte: delete last");
	p = vt_below(1000);
	sc_array_del(&a, p);
	for (i = 0; i < n - 2000; i += 1 + (i > 3000 && i < n - 5000 ? vt_below(100000) : 0)) {
		VT_CHECK(sc_array_at(&a, i) == b8(i < p ? i : i + 1), "byte: delete at %" PRIu64 " of %" PRIu64 ": element %" PRIu64, p, n, i);
	}
	sc_array_term(&a);
	vt_event(n + 200000);
}

void vt_case(uint64_t n)
{
	vt_alloc_limit = 1ull << 40;
	if (n % 3 == 0) { /* more than 4 GiB in few elements */
		struct sc_array_page a;
		struct page pg, e;
		uint64_t count = (1u << 20) + 1 + vt_below(500), k = 0;
		memset(&pg, 3, sizeof(pg));
		sc_array_init(&a);
		for (uint64_t i = 0; i < count; i++) {
			pg.no = i;
			pg.rest[4087] = (char) i;
			sc_array_add(&a, pg);
			if (sc_array_oom(&a)) {
				vt_fail("page: add refused at size %" PRIu64 " although memory was available", i);
			}
		}
		for (uint64_t i = 0; i < count; i++) {
			if (sc_array_at(&a, i).no != i || sc_array_at(&a, i).rest[4087] != (char) i) {
				vt_fail("page: wrong element at %" PRIu64 " of %" PRIu64, i, count);
			}
		}
		uint64_t p = count - 1 - vt_below(300);
		sc_array_del(&a, p);
		sc_array_del(&a, (uint64_t) 3);
		sc_array_foreach (&a, e) {
			uint64_t w = k < 3 ? k : k + 1 < p ? k + 1 : k + 2;
			if (e.no != w || e.rest[4087] != (char) w) {
				vt_fail("page: loop step %" PRIu64 " of %" PRIu64 " gave element %" PRIu64 " instead of %" PRIu64, k, count - 2, e.no, w);
			}
			k++;
		}
		VT_CHECK(k == count - 2, "page: loop visited %" PRIu64 " of %" PRIu64, k, count - 2);
		sc_array_term(&a);
		vt_event(3 * count);
		vt_class("past-4-gib");
	} else {
		bytes(n % 3 == 1 ? (1u << 24) + 1 + vt_below(70000) : G32 + 1 + vt_below(70000));
		vt_class(n % 3 == 1 ? "past-2-to-24" : "past-2-to-32");
	}
	VT_CHECK(vt_live == 0, "%ld blocks left after term", vt_live);
	vt_state(vt_rnd());
}
#endif

#ifdef QUEUE
#include "sc_queue.h"
struct page {
	uint64_t no;
	char rest[4088];
};
sc_queue_def(unsigned char, byte);
sc_queue_def(struct page, page);

void vt_case(uint64_t n)
{
	vt_alloc_limit = 1ull << 40;
	if (n % 3 == 0) {
		struct sc_queue_page q;
		struct page pg, e;
		uint64_t count = (1u << 20) + 1 + vt_below(500), k, front = vt_below(5000);
		memset(&pg, 3, sizeof(pg));
		sc_queue_init(&q);
		for (uint64_t i = 0; i < count; i++) { /* 0..front-1 at the front, in the end */
			bool first = i < front;
			pg.no = first ? front - 1 - i : i;
			pg.rest[4087] = (char) pg.no;
			if (first) {
				sc_queue_add_first(&q, pg);
			} else {
				sc_queue_add_last(&q, pg);
			}
			if (sc_queue_oom(&q)) {
				vt_fail("page: add refused at size %" PRIu64 " although memory was available", i);
			}
		}
		VT_CHECK(sc_queue_size(&q) == count, "page: size %zu, expected %" PRIu64, (size_t) sc_queue_size(&q), count);
		for (k = 0; k < count; k++) {
			if (sc_queue_at(&q, k).no != k || sc_queue_at(&q, k).rest[4087] != (char) k) {
				vt_fail("page: wrong element at %" PRIu64 " of %" PRIu64, k, count);
			}
		}
		k = 0;
		sc_queue_foreach (&q, e) {
			if (e.no != k) {
				vt_fail("page: loop step %" PRIu64 " of %" PRIu64 " gave element %" PRIu64, k, count, e.no);
			}
			k++;
		}
		VT_CHECK(k == count, "page: loop visited %" PRIu64 " of %" PRIu64, k, count);
		for (uint64_t lo = 0, hi = count; lo < hi && lo < 3000; lo++) {
			hi--;
			VT_CHECK(sc_queue_peek_last(&q).no == hi && sc_queue_peek_first(&q).no == lo, "page: ends of %" PRIu64 " elements", hi - lo);
			VT_CHECK(sc_queue_del_last(&q).no == hi && sc_queue_del_first(&q).no == lo, "page: deletes at the ends of %" PRIu64 " elements", hi - lo);
		}
		sc_queue_term(&q);
		vt_event(3 * count);
		vt_class("past-4-gib");
	} else {
		struct sc_queue_byte q;
		uint64_t count = n % 3 == 1 ? (1u << 24) + 1 + vt_below(70000) : G32 + 1 + vt_below(70000), front, k, sum = 0, got = 0;
		unsigned char e;
		bool back_first = n / 3 % 2 == 0; /* so that the first element is far into the storage */
		front = back_first ? 1 + vt_below(4000) : vt_below(count);
		sc_queue_init(&q);
		for (uint64_t i = 0; i < count; i++) {
			unsigned char v;
			uint64_t j = back_first ? (i < count - front ? front + i : count - 1 - i) : i < front ? front - 1 - i : i;
			v = b8(j);
			if (j < front) {
				sc_queue_add_first(&q, v);
			} else {
				sc_queue_add_last(&q, v);
			}
			if (sc_queue_oom(&q)) {
				vt_fail("byte: add refused at size %" PRIu64 " although memory was available", i);
			}
			sum += v;
		}
		VT_CHECK(sc_queue_size(&q) == count && !sc_queue_empty(&q), "byte: size %zu, expected %" PRIu64, (size_t) sc_queue_size(&q), count);
		for (uint64_t i = 0; i < 200000; i++) {
			uint64_t p = i < 100 ? i : i < 200 ? count - 1 - (i - 100) : i < 300 && count > G32 ? G32 - 50 + (i - 200) : vt_below(count);
			if (p < count && sc_queue_at(&q, p) != b8(p)) {
				vt_fail("byte: wrong element at %" PRIu64 " of %" PRIu64, p, count);
			}
		}
		k = 0;
		sc_queue_foreach (&q, e) {
			got += e;
			k++;
		}
		VT_CHECK(k == count && got == sum, "byte: loop visited %" PRIu64 " of %" PRIu64 " elements", k, count);
		for (uint64_t i = 0; i < 5000; i++) { /* rotate, both ways */
			uint64_t f = sc_queue_del_first(&q);
			VT_CHECK(f == b8(i), "byte: first of %" PRIu64 " is wrong", count);
			sc_queue_add_last(&q, (unsigned char) f);
		}
		VT_CHECK(sc_queue_peek_last(&q) == b8(4999), "byte: last of %" PRIu64, count);
		for (uint64_t i = 5000; i-- > 0;) {
			unsigned char l = sc_queue_del_last(&q);
			VT_CHECK(l == b8(i), "byte: last of %" PRIu64 " is wrong", count);
			sc_queue_add_first(&q, l);
		}
		VT_CHECK(sc_queue_peek_first(&q) == b8(0) && sc_queue_peek_last(&q) == b8(count - 1) && sc_queue_size(&q) == count, "byte: ends of %" PRIu64, count);
		sc_queue_clear(&q);
		VT_CHECK(sc_queue_size(&q) == 0 && sc_queue_empty(&q), "byte: cleared queue of %" PRIu64 " is not empty", count);
		sc_queue_term(&q);
		vt_event(2 * count);
		vt_class(n % 3 == 1 ? "past-2-to-24" : "past-2-to-32");
	}
	VT_CHECK(vt_live == 0, "%ld blocks left after term", vt_live);
	vt_state(vt_rnd());
}
#endif

#ifdef HEAP
#include "sc_heap.h"
static int64_t extra[4000];
static int less(const void *x, const void *y)
{
	int64_t a = *(const int64_t *) x, b = *(const int64_t *) y;
	return a < b ? -1 : a > b;
}
void vt_case(uint64_t n)
{
	struct sc_heap hp;
	bool vast = n % 2 == 0;
	/* past 4 GiB of entries, or a capacity that reserves them */
	uint64_t count = vast ? (1u << 28) + 100 + vt_below(1000) : (1u << 24) + vt_below(1000), even = 0;
	size_t cap = vt_chance(1, 2) ? 0 : (1u << 29) + vt_below(100), nx = 4000, x = 0;
	struct sc_heap_data *d;

	vt_alloc_limit = 1ull << 40;
	VT_CHECK(sc_heap_init(&hp, cap), "init(%zu) failed", cap);
	/* even keys in order, then odd ones anywhere */
	for (uint64_t i = 0; i < count; i++) {
		if (!sc_heap_add(&hp, (int64_t) (2 * i), (void *) (uintptr_t) (2 * i + 7))) {
			vt_fail("add refused at size %" PRIu64 " although memory was available", i);
		}
	}
	for (size_t i = 0; i < nx; i++) {
		extra[i] = (int64_t) (vt_chance(1, 2) ? vt_below(6000) : vt_below(2 * count)) | 1;
		VT_CHECK(sc_heap_add(&hp, extra[i], (void *) (uintptr_t) (extra[i] + 7)), "add refused at size %zu", (size_t) count + i);
	}
	VT_CHECK(sc_heap_size(&hp) == count + nx, "size %zu, expected %" PRIu64, sc_heap_size(&hp), count + nx);
	qsort(extra, nx, sizeof(*extra), less);
	for (size_t i = 0; i < 20000; i++) {
		int64_t want = x < nx && extra[x] < (int64_t) (2 * even) ? extra[x++] : (int64_t) (2 * even++);
		if (i % 16 == 0) {
			d = sc_heap_peek(&hp);
			VT_CHECK(d && d->key == want, "peek of %zu gives %" PRId64 ", smallest is %" PRId64, sc_heap_size(&hp), d ? d->key : -1, want);
		}
		d = sc_heap_pop(&hp);
		if (!d || d->key != want || (uintptr_t) d->data != (uintptr_t) want + 7) {
			vt_fail("pop %zu of %" PRIu64 " gives %" PRId64 ", smallest is %" PRId64, i, count + nx, d ? d->key : -1, want);
		}
	}
	VT_CHECK(sc_heap_size(&hp) == count + nx - 20000, "size after pops");
	sc_heap_clear(&hp);
	VT_CHECK(sc_heap_size(&hp) == 0 && sc_heap_pop(&hp) == NULL, "cleared heap is not empty");
	sc_heap_term(&hp);
	VT_CHECK(vt_live == 0, "%ld blocks left after term", vt_live);
	vt_event(count + 20000);
	vt_class(vast ? "past-4-gib" : "past-2-to-24");
	vt_class(cap ? "vast-capacity" : "grown-from-nothing");
	vt_state(vt_rnd());
}
#endif

#ifdef MAP
#include "sc_map.h"
#define MANY 3000
#define ROOMY(NAME, K, V, KEY, VAL)                                                                                                   \
	static void roomy_##NAME(uint32_t cap, uint32_t fac)                                                                          \
	{                                                                                                                             \
		struct sc_map_##NAME m;                                                                                               \
		uint32_t seen = 0;                                                                                                    \
		uint64_t salt = vt_rnd();                                                                                             \
		if (!sc_map_init_##NAME(&m, cap, fac)) {                                                                              \
			vt_class("capacity-refused");                                                                                 \
			VT_CHECK(vt_live == 0, #NAME ": blocks left by a refused capacity");                                         \
			return;                                                                                                       \
		}                                                                                                                     \
		for (uint64_t i = 0; i < MANY; i++) {                                                                                 \
			V v = (V) VAL(i);                                                                                             \
			sc_map_put_##NAME(&m, (K) KEY(i), v);                                                                         \
			VT_CHECK(!sc_map_oom(&m) && !sc_map_found(&m), #NAME ": put into a map with room for %u", cap);              \
		}                                                                                                                     \
		VT_CHECK(sc_map_size_##NAME(&m) == MANY, #NAME ": size");                                                            \
		for (uint64_t i = 0; i < MANY; i += 2) {                                                                              \
			V v = sc_map_del_##NAME(&m, (K) KEY(i));                                                                      \
			VT_CHECK(sc_map_found(&m) && v == (V) VAL(i), #NAME ": delete from a map with room for %u", cap);            \
		}                                                                                                                     \
		for (uint64_t i = 0; i < MANY; i++) {                                                                                 \
			V v = sc_map_get_##NAME(&m, (K) KEY(i));                                                                      \
			VT_CHECK(sc_map_found(&m) == (i % 2 == 1) && (i % 2 == 0 || v == (V) VAL(i)), #NAME ": get from a map with room for %u", cap); \
		}                                                                                                                     \
		(void) seen;                                                                                                          \
		sc_map_term_##NAME(&m);                                                                                               \
		VT_CHECK(vt_live == 0, #NAME ": blocks left");                                                                       \
		vt_event(3 * MANY);                                                                                                   \
		vt_class("roomy");                                                                                                   \
	}
static char texts[MANY][24];
#define NUM(i) ((salt + (i) * 0x9e3779b97f4a7c15ull) >> 3 << 3 | ((i) & 7))
#define NUM32(i) ((uint32_t) (((salt & 0xffff) + (i)) * 2654435761u))
#define VALN(i) ((i) * 3 + 1)
#define TXT(i) (texts[i])
ROOMY(int, int, int, NUM32, VALN)
ROOMY(intv, int, void *, NUM32, VALN)
ROOMY(ll, long long, long long, NUM, VALN)
ROOMY(32, uint32_t, uint32_t, NUM32, VALN)
ROOMY(64, uint64_t, uint64_t, NUM, VALN)
ROOMY(64s, uint64_t, const char *, NUM, VALN)
ROOMY(str, const char *, const char *, TXT, VALN)
ROOMY(s64, const char *, uint64_t, TXT, VALN)

void vt_setup(void)
{
	for (int i = 0; i < MANY; i++) {
		snprintf(texts[i], sizeof(texts[i]), "key-%d-%x", i, i * 7919);
	}
}

void vt_case(uint64_t n)
{
	vt_alloc_limit = 1ull << 40;
	if (n % 2 == 0) { /* room for very many, few used */
		static void (*const fn[])(uint32_t, uint32_t) = {roomy_int, roomy_intv, roomy_ll, roomy_32, roomy_64, roomy_64s, roomy_str, roomy_s64};
		for (int i = 0; i < 8; i++) {
			/* 2^27 * 24 and 2^29 * 8 bytes are past 4 GiB */
			uint32_t cap = (1u << (27 + vt_below(i % 2 ? 3 : 2))) - vt_below(2) + (uint32_t) vt_below(2);
			fn[(n / 2 * 3 + i) % 8](cap, (uint32_t) (vt_chance(1, 3) ? 0 : vt_range(25, 95)));
		}
		struct sc_map_32 m; /* what no allocation can hold */
		VT_CHECK(!sc_map_init_32(&m, (1u << 31) + 1 + (uint32_t) vt_below(1u << 30), 0), "impossible capacity accepted");
		VT_CHECK(!sc_map_init_32(&m, UINT32_MAX - (uint32_t) vt_below(3), 0), "impossible capacity accepted");
		VT_CHECK(vt_live == 0, "blocks left by an impossible capacity");
	} else { /* very many entries: past 4 GiB of slots */
		struct sc_map_32 m;
		bool vast = n % 4 == 1;
		uint32_t count = vast ? (1u << 28) + 1 + (uint32_t) vt_below(100000) : (1u << 24) + (uint32_t) vt_below(100000), k, v, visited = 0, fac = vast ? 50 : 25 + (uint32_t) vt_below(71);
		uint64_t sum = 0, want = 0;
		VT_CHECK(sc_map_init_32(&m, 0, fac), "init");
		for (uint32_t i = 0; i < count; i++) {
			sc_map_put_32(&m, i, i ^ 0x5a5a5a5a);
			if (sc_map_oom(&m) || sc_map_found(&m)) {
				vt_fail("put of new key %u: oom=%d found=%d", i, sc_map_oom(&m), sc_map_found(&m));
			}
			want += (uint64_t) i * 3 + (i ^ 0x5a5a5a5a);
		}
		VT_CHECK(sc_map_size_32(&m) == count, "size %u, expected %u", sc_map_size_32(&m), count);
		for (uint32_t i = 0; i < count; i += 1 + (uint32_t) vt_below(500)) {
			v = sc_map_get_32(&m, i);
			if (!sc_map_found(&m) || v != (i ^ 0x5a5a5a5a)) {
				vt_fail("key %u of %u is lost", i, count);
			}
		}
		sc_map_foreach (&m, k, v) {
			sum += (uint64_t) k * 3 + v;
			visited++;
		}
		VT_CHECK(visited == count && sum == want, "loop visited %u of %u entries", visited, count);
		for (uint32_t i = 0; i < 100000; i++) {
			k = (uint32_t) vt_below(count);
			v = sc_map_del_32(&m, k);
			count -= sc_map_found(&m);
			sc_map_get_32(&m, k);
			VT_CHECK(!sc_map_found(&m), "key %u is found after its deletion", k);
		}
		VT_CHECK(sc_map_size_32(&m) == count, "size after deletions");
		sc_map_clear_32(&m);
		sc_map_foreach (&m, k, v) {
			vt_fail("entry %u in a cleared map", k);
		}
		VT_CHECK(sc_map_size_32(&m) == 0, "size after clear");
		sc_map_term_32(&m);
		VT_CHECK(vt_live == 0, "blocks left");
		vt_event(3ull * count);
		vt_class(vast ? "past-4-gib" : "past-2-to-24");
	}
	vt_state(vt_rnd());
}
#endif

#ifdef URI
#include "sc_uri.h"
static char *text;
#define SPAN (G32 + (64ull << 20))
void vt_setup(void) { text = tiles_make("abcdefg/", 8, SPAN); }
static bool tile_eq(const char *s, const char *in_text, uint64_t n) { return memcmp(s, in_text, n) == 0; }

void vt_case(uint64_t n)
{
	static const uint64_t sizes[] = {1ull << 24, 1ull << 30, 1ull << 31, 1ull << 32};
	uint64_t len = sizes[n % 4] + vt_below(3000) + (n % 4 < 2 ? 5000 : 0), pos, user = 0, host = 0, path = 0, query = 0, frag = 0, mark = 0;
	int where = (int) ((n + n / 4) % 4), saved = 0;
	char *s = text + SPAN - 4096 - (len + 100) / 4096 * 4096, keep[8];
	uint64_t at[8];
	struct sc_uri *u;

	vt_alloc_limit = 1ull << 40;
#define PUT(p, c) (at[saved] = (p), keep[saved] = s[p], saved++, s[p] = (c))
	/* scheme ':' "//" user '@' host-or-port... then one very long part */
	memcpy(s, "ab://u@h:80/", 12);
	user = 5;
	host = 7;
	path = 11;
	pos = 12;
	uint64_t head = vt_below(2000), tail = vt_below(2000);
	switch (where) {
	case 0: /* long path */ query = len - 2 - tail; frag = query + 1 + tail / 2; break;
	case 1: /* long query */ query = pos + head; frag = len - 1 - tail / 2; break;
	case 2: /* long fragment */ query = pos + head; frag = query + 1 + tail; break;
	default: /* nothing but a path */ query = frag = len; break;
	}
	s[len] = 0;
	if (query < len) {
		PUT(query, '?');
		PUT(frag, '#');
	}
	u = sc_uri_create(s);
	vt_log("%" PRIu64 " bytes, long part %d: %s", len, where, u ? "taken" : "refused");
	VT_CHECK(u || len > (1ull << 31) - 4096, "%" PRIu64 " bytes refused", len);
	if (u) {
		uint64_t qlen = query < len ? frag - query - 1 : 0, flen = frag < len ? len - frag - 1 : 0;
		VT_CHECK(strlen(u->str) == len && tile_eq(u->str, s, len), "%" PRIu64 " bytes: the text", len);
		VT_CHECK(!strcmp(u->scheme, "ab") && !strcmp(u->userinfo, "u") && !strcmp(u->host, "h") && !strcmp(u->port, "80"), "%" PRIu64 " bytes: the short parts", len);
		VT_CHECK(strlen(u->path) == query - path && tile_eq(u->path, s + path, query - path), "%" PRIu64 " bytes: the path", len);
		VT_CHECK(strlen(u->query) == qlen && tile_eq(u->query, s + query + 1, qlen), "%" PRIu64 " bytes: the query", len);
		VT_CHECK(strlen(u->fragment) == flen && tile_eq(u->fragment, s + frag + 1, flen), "%" PRIu64 " bytes: the fragment", len);
		sc_uri_destroy(u);
	} else {
		vt_class("refused");
	}
	VT_CHECK(vt_live == 0, "%ld blocks left", vt_live);
	s[len] = "abcdefg/"[(uintptr_t) (s + len - text) % 8];
	while (saved--) {
		s[at[saved]] = keep[saved];
	}
	for (int i = 0; i < 12; i++) {
		s[i] = "abcdefg/"[(uintptr_t) (s + i - text) % 8];
	}
	(void) user;
	(void) host;
	(void) mark;
	vt_event(7);
	vt_class(n % 4 == 0 ? "past-2-to-24" : n % 4 == 1 ? "past-2-to-30" : n % 4 == 2 ? "past-2-to-31" : "past-2-to-32");
	vt_state(vt_rnd());
}
#endif

#ifdef INI
#include "sc_ini.h"
#ifndef REFUSALS
#define REFUSALS 0
#endif
static char *doc, *line, unit[4096];
#define SPAN (G32 + (8ull << 20))
/* four lines in 4096 bytes: an entry, a comment, an entry, an over-long entry */
void vt_setup(void)
{
	memset(unit, 'x', sizeof(unit));
	memcpy(unit, "[s1]\nk = ", 9);
	unit[300] = '\n';
	unit[301] = ';';
	unit[1000] = '\n';
	memcpy(unit + 1001, "key2 : ", 7);
	unit[1500] = '\n';
	memcpy(unit + 1501, "k3=", 3);
	unit[4095] = '\n';
	doc = tiles_make(unit, sizeof(unit), SPAN);
	line = tiles_make("y", 1, SPAN);
}
static uint64_t items;
static int refuse; /* what the callback says about the last entry */
static int item(void *arg, int line, const char *section, const char *key, const char *value)
{
	static const int lines[] = {2, 4, 5}, lens[] = {300 - 9, 1500 - 1008, SC_INI_MAX_LINE_LEN - 1 - 3};
	static const char *const keys[] = {"k", "key2", "k3"};
	uint64_t blk = items / 3;
	int w = (int) (items % 3);
	items++;
	if (blk == *(uint64_t *) arg) {
		VT_CHECK(w == 0 && !strcmp(section, "end") && !strcmp(key, "last") && !strcmp(value, "one"), "the last entry is %s.%s = %s", section, key, value);
		VT_CHECK(line == (int) (blk * 5 + 2), "the last entry is at line %d instead of %" PRIu64, line, blk * 5 + 2);
		return refuse;
	}
	if (line != (int) (blk * 5) + lines[w] || strcmp(section, "s1") || strcmp(key, keys[w]) || strlen(value) != (size_t) lens[w] || value[lens[w] - 1] != 'x') {
		vt_fail("entry %" PRIu64 ": line %d, %s.%s, value of %zu bytes", items - 1, line, section, key, strlen(value));
	}
	return 0;
}

static int after_long(void *arg, int ln, const char *section, const char *key, const char *value)
{
	int *seen = arg;
	if (++*seen == 1) {
		VT_CHECK(ln == 1 && !strcmp(key, "key") && strlen(value) == SC_INI_MAX_LINE_LEN - 1 - 4 && value[0] == 'y', "the entry of a vast line: line %d, %s, %zu bytes", ln, key, strlen(value));
	} else {
		VT_CHECK(*seen == 2 && ln == 3 && !strcmp(section, "s") && !strcmp(key, "k") && !strcmp(value, "v"), "the entry behind a vast line: line %d, %s.%s = %s", ln, section, key, value);
	}
	return *seen == 2 ? refuse : 0;
}

void vt_case(uint64_t n)
{
	/* the document ends with an entry, a malformed line, or a refused entry */
	int end = REFUSALS ? 1 + (int) vt_below(3) : 0;
	refuse = end == 2 ? -1 : end == 3 ? 7 : 0;
	if (end) {
		vt_class(end == 1 ? "malformed-late" : "refused-late");
	}
	if (n % 3 == 2) { /* one line that long */
		uint64_t len = (n % 2 ? 1ull << 31 : 1ull << 32) + vt_below(900);
		int seen = 0;
		memcpy(line, "key=", 4);
		const char *tail = end == 1 ? "\n[s]\nk=v\n;\nno\nx=y\n" : end ? "\n[s]\nk=v\nx=y\n" : "\n[s]\nk=v\n";
		size_t tl = strlen(tail) + 1;
		memcpy(line + len, tail, tl);
		int rc = sc_ini_parse_string(&seen, after_long, line);
		VT_CHECK(rc == (end == 0 ? 0 : end == 1 ? 5 : 3) && seen == 2, "a line of %" PRIu64 " bytes: %d, %d entries", len, rc, seen);
		memset(line + len, 'y', tl);
		vt_event(2);
		vt_class("vast-line");
		vt_state(vt_rnd());
		return;
	}
	uint64_t blocks = (n % 3 ? (1ull << 24) : G32) / 4096 + 1 + vt_below(200);
	char *s = doc, *tail = doc + blocks * 4096;
	char keep[4096];
	int rc;
	memcpy(keep, tail, 4096);
	strcpy(tail, end == 1 ? "[end]\nlast = one\n;\nwrong\nmore=x\n" : end ? "[end]\nlast = one\nmore = x" : vt_chance(1, 2) ? "[end]\nlast = one" : "[end]\nlast = one\n;\n");
	items = 0;
	rc = sc_ini_parse_string(&blocks, item, s);
	int want = end == 0 ? 0 : (int) blocks * 5 + (end == 1 ? 4 : 2);
	VT_CHECK(rc == want, "a document of %" PRIu64 " bytes gives %d, expected %d", blocks * 4096, rc, want);
	VT_CHECK(items == blocks * 3 + 1, "%" PRIu64 " entries of %" PRIu64, items, blocks * 3 + 1);
	memcpy(tail, keep, 4096);
	vt_event(items);
	vt_class(n % 3 ? "past-2-to-24" : "past-2-to-32");
	vt_state(vt_rnd());
}
#endif

#ifdef TOKEN
#include "sc_str.h"
void vt_case(uint64_t n)
{
	uint64_t len = (n % 3 == 0 ? 1ull << 24 : n % 3 == 1 ? 1ull << 31 : (1ull << 32) - 40000) + vt_below(3000), third = len - 4000 - vt_below(3000);
	char *raw, *s, *save = NULL;
	const char *t;
	bool stop = vt_chance(1, 3);
	vt_alloc_limit = 1ull << 40;
	raw = vt_malloc(len + 1);
	memset(raw, 'a', len);
	raw[len] = 0;
	raw[3] = ',';
	raw[third] = ';';
	raw[third + 1] = ',';
	s = sc_str_create(raw);
	VT_CHECK(s && sc_str_len(s) == (int64_t) len, "create of %" PRIu64 " bytes", len);
	t = sc_str_token_begin(s, &save, ",;");
	VT_CHECK(t && strlen(t) == 3, "the first token of %" PRIu64 " bytes", len);
	t = sc_str_token_begin(s, &save, ",;");
	VT_CHECK(t == s + 4 && strlen(t) == third - 4, "the long token of %" PRIu64 " bytes", len);
	t = sc_str_token_begin(s, &save, ",;");
	VT_CHECK(t == s + third + 1 && *t == 0, "the empty token at %" PRIu64, third);
	if (!stop) {
		t = sc_str_token_begin(s, &save, ",;");
		VT_CHECK(t == s + third + 2 && strlen(t) == len - third - 2, "the last token of %" PRIu64 " bytes", len);
		VT_CHECK(sc_str_token_begin(s, &save, ",;") == NULL, "a token past the end of %" PRIu64 " bytes", len);
	}
	sc_str_token_end(s, &save);
	VT_CHECK(sc_str_len(s) == (int64_t) len && memcmp(s, raw, len + 1) == 0, "%" PRIu64 " bytes are not restored", len);
	sc_str_destroy(&s);
	vt_free(raw);
	VT_CHECK(vt_live == 0, "%ld blocks left", vt_live);
	vt_event(6);
	vt_class(n % 3 == 0 ? "past-2-to-24" : n % 3 == 1 ? "past-2-to-31" : "up-to-2-to-32");
	vt_state(vt_rnd());
}
#endif

#ifdef RAND
#include "sc.h"
void vt_case(uint64_t n)
{
	int len = n % 2 == 0 ? (1 << 24) + 1 + (int) vt_below(3000) : INT32_MAX - (int) vt_below(3);
	unsigned char seed[256], *one, piece[65536 + 1];
	struct sc_rand a, b;
	for (int i = 0; i < 256; i++) {
		seed[i] = (unsigned char) vt_rnd();
	}
	vt_alloc_limit = 1ull << 40;
	one = vt_malloc((size_t) len + 16);
	memset(one + len, 0x5c, 16);
	sc_rand_init(&a, seed);
	sc_rand_init(&b, seed);
	sc_rand_read(&a, one, len);
	for (int i = 0; i < 16; i++) {
		VT_CHECK(one[len + i] == 0x5c, "written past %d bytes", len);
	}
	for (int at = 0; at < len;) {
		int l = 1 + (int) vt_below(sizeof(piece));
		l = l < len - at ? l : len - at;
		sc_rand_read(&b, piece, l);
		if (memcmp(one + at, piece, (size_t) l) != 0) {
			vt_fail("%d bytes at %d of %d differ from the single read", l, at, len);
		}
		at += l;
	}
	VT_CHECK(memcmp(&a, &b, sizeof(a)) == 0, "the generators differ after %d bytes", len);
	vt_free(one);
	vt_event((uint64_t) len / 32768);
	vt_class(n % 2 == 0 ? "past-2-to-24" : "up-to-2-to-31");
	vt_state(vt_rnd());
}
#endif
