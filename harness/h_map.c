/* P01 (lookup) and, with ITER, P02 (iteration, clear, init/term): sc_map
 * against a plain table over a pool of distinct keys. */
#include "vt.h"
#include "sc_map.h"

#define STR_(x) #x
#define STR(x) STR_(x)

static size_t pool_n;
static int pool_style;
static bool pool_str;
static int pool_w; /* key width in bytes */
static uint64_t *pool_k;
static char **pool_s;  /* one copy */
static char **pool_s2; /* an equal text at another address */
static bool *present;
static size_t count;
static uint32_t *seen, stamp;
static uint32_t *idx; /* hash index over the pool */
static size_t idx_cap;

static const char *colliding[] = {
	"q4e60", "qwertyui3432f", "qwertyuiopasdfgh13757", "qwertyuiopasdfgh607bb", "qwertyuio25894", "qwertyuiopasdfgh341a5",
	"qwe27367", "qwert29aaa", "qwertyuio236f8", "qwertyuiopasdfgh2f951", "qwert1385c", "qwe53f17", "qwertyuiopasdfgh37eb3",
	"qwertyuiopasdfgh4e02f", "qwertyuio24190", "qwe3c3af", "qwertyui28d19", "qwert353ae", "qwe2c59f", "qwertyuio389b6",
	"qwe3f295", "qwe53815", "qwe22d77", "qwert2b86e", "q33774", "qwertyuio50e9c", "qwertyuiopasdfgha47b", "qwertyui19c29",
	"qwertyuiopasdfgh43373", "qwertyui503df", "qwe56fb", "qwertyui435b7", "qwe24a33", "qwe46597", "qwertyuiopasdfgh44a5",
	"qwertyui561e1"};

static uint64_t key_bits(uint64_t k)
{
	return pool_w == 4 ? (uint32_t) k : k;
}

static long pool_find(uint64_t k)
{
	size_t i = vt_mix(k) & (idx_cap - 1);
	while (idx[i]) {
		if (pool_k[idx[i] - 1] == k) {
			return (long) idx[i] - 1;
		}
		i = (i + 1) & (idx_cap - 1);
	}
	return -1;
}
static long pool_find_str(const char *s)
{
	if (!s) {
		return 0;
	}
	size_t i = vt_hash_bytes(1, s, strlen(s)) & (idx_cap - 1);
	while (idx[i]) {
		const char *p = pool_s[idx[i] - 1];
		if (p && strcmp(p, s) == 0) {
			return (long) idx[i] - 1;
		}
		i = (i + 1) & (idx_cap - 1);
	}
	return -1;
}

static const char *kname(size_t i)
{
	static char b[4][80];
	static int r;
	char *o = b[r++ & 3];
	if (pool_str) {
		snprintf(o, 80, "#%zu %s", i, pool_s[i] ? pool_s[i] : "NULL");
	} else {
		snprintf(o, 80, "#%zu 0x%" PRIx64, i, pool_k[i]);
	}
	return o;
}

static char *exact(const char *s, size_t n)
{
	char *p = vt_malloc(n + 1); /* exact size: over-reads are caught */
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}

static void add_str(const char *s, size_t n)
{
	char *c = exact(s, n);
	if (pool_find_str(c) >= 0) {
		vt_free(c);
		return;
	}
	size_t i = vt_hash_bytes(1, c, n) & (idx_cap - 1);
	while (idx[i]) {
		i = (i + 1) & (idx_cap - 1);
	}
	pool_s[pool_n] = c;
	pool_s2[pool_n] = exact(s, n);
	idx[i] = (uint32_t) ++pool_n;
}
static void add_key(uint64_t k)
{
	k = key_bits(k);
	if (pool_find(k) >= 0) {
		return;
	}
	size_t i = vt_mix(k) & (idx_cap - 1);
	while (idx[i]) {
		i = (i + 1) & (idx_cap - 1);
	}
	pool_k[pool_n] = k;
	idx[i] = (uint32_t) ++pool_n;
}

/* Two texts of equal hash: the same but for sixteen bytes, the last eight of
 * which make up for the difference of the first eight. */
static uint64_t unmix(uint64_t k)
{
	const uint64_t minv = 0x5f7a0ea7e59b19bdull; /* of 0xc6a4a7935bd1e995, modulo 2^64 */
	k *= minv;
	k ^= k >> 47;
	return k * minv;
}
static uint64_t domix(uint64_t k)
{
	k *= 0xc6a4a7935bd1e995ull;
	k ^= k >> 47;
	return k * 0xc6a4a7935bd1e995ull;
}
static size_t twins(char *a, char *b)
{
	const uint64_t m = 0xc6a4a7935bd1e995ull;
	size_t pre = 8 * vt_below(20), post = vt_chance(1, 2) ? 0 : vt_below(100), n = pre + 16 + post;
	for (;;) {
		uint64_t h = n * m, k, l, x, y;
		for (size_t i = 0; i < n; i++) {
			a[i] = (char) ('a' + vt_below(26));
		}
		memcpy(b, a, n);
		for (size_t i = 0; i < pre; i += 8) {
			memcpy(&k, a + i, 8);
			h = (h ^ domix(k)) * m;
		}
		b[pre + vt_below(8)] ^= 1;
		memcpy(&k, a + pre, 8);
		memcpy(&l, b + pre, 8);
		x = (h ^ domix(k)) * m;
		y = (h ^ domix(l)) * m;
		memcpy(&k, a + pre + 8, 8);
		l = unmix(domix(k) ^ x ^ y);
		memcpy(b + pre + 8, &l, 8);
		if (memchr(b, 0, n) == NULL) {
			a[n] = b[n] = 0;
			return n;
		}
	}
}

static uint8_t *held; /* which copy a map of strings may refer to: the one its latest put of the key gave */
static void make_pool(bool str, size_t width, bool sgn, bool big, bool vast)
{
	size_t want = vast ? (size_t) vt_range(80000, 150000) : big ? (size_t) vt_range(1000, 20000) : vt_chance(1, 3) ? (size_t) vt_range(2, 10) : (size_t) vt_range(2, 300);
	(void) sgn;
	pool_str = str;
	pool_w = (int) width;
	pool_n = 0;
	pool_style = (int) vt_below(8);
	if (vast) { /* styles that give enough different keys and short chains */
		static const int many[] = {0, 3, 5};
		pool_style = str ? (int) vt_below(2) : many[vt_below(3)];
	}
	idx_cap = 64;
	while (idx_cap < 4 * (want + 80)) {
		idx_cap *= 2;
	}
	idx = vt_calloc(idx_cap, sizeof(*idx));
	pool_k = vt_calloc(want + 80, sizeof(*pool_k));
	pool_s = vt_calloc(want + 80, sizeof(*pool_s));
	pool_s2 = vt_calloc(want + 80, sizeof(*pool_s2));
	if (!str) {
		uint64_t base = vt_rnd();
		unsigned sh = (unsigned) vt_below(width * 8 - 4);
		add_key(0);
		for (size_t t = 0; t < want * 3 && pool_n < want; t++) {
			uint64_t r = vt_rnd();
			switch (pool_style) {
			case 0: add_key(r % (want * 2)); break;            /* dense */
			case 1: add_key((r % (want * 2)) << sh); break;    /* equal low bits */
			case 2: add_key(vt_edge64()); break;               /* extremes */
			case 3: add_key(r); break;
			case 4: /* equal after folding the halves */
				add_key(((r & 0xffffffff) << 32) | ((r & 0xffffffff) ^ (base & 0xff)));
				break;
			case 5: add_key(0 - (r % (want * 2))); break;      /* negative */
			case 6: add_key((r % 3 ? 7 : 0xfffffff8u) + 8 * (r >> 40) % (8 * want)); break; /* last slots, wraps */
			default: add_key(base + (r % (want * 2)) * 16); break;
			}
		}
	} else {
		char t[600];
		pool_n = 1; /* entry 0 is the NULL key */
		if (vt_chance(1, 2)) {
			add_str("", 0);
		}
		size_t pre = vt_below(40);
		for (size_t k = 0; k < want * 3 && pool_n < want; k++) {
			uint64_t r = vt_rnd();
			size_t n;
			switch (pool_style) {
			case 0:
				n = (size_t) snprintf(t, sizeof(t), "%" PRIu64, r % (want * 2));
				break;
			case 1: /* long common prefix, difference at the end */
				memset(t, 'p', pre);
				n = pre + (size_t) snprintf(t + pre, 40, "%" PRIx64, r % (want * 2));
				break;
			case 2: /* difference at the start */
				n = (size_t) snprintf(t, 40, "%" PRIx64, r % (want * 2));
				memset(t + n, 's', pre);
				n += pre;
				break;
			case 3: /* prefixes of one another */
				n = r % 500 % (want + 1);
				memset(t, 'a', n);
				break;
			case 4: /* equal hashes */
				if (k < sizeof(colliding) / sizeof(colliding[0])) {
					n = strlen(colliding[k]);
					memcpy(t, colliding[k], n);
				} else if (vt_chance(3, 4)) {
					char u[600];
					n = twins(t, u);
					add_str(u, n);
				} else {
					n = (size_t) snprintf(t, sizeof(t), "%" PRIx64, r);
				}
				break;
			case 5: /* arbitrary bytes */
				n = vt_below(30);
				for (size_t i = 0; i < n; i++) {
					t[i] = (char) (1 + vt_below(255));
				}
				break;
			case 6: /* one byte differs in a long key */
				n = 1 + pre * 3;
				memset(t, 'x', n);
				t[r % n] = (char) ('a' + (r >> 32) % 20);
				break;
			default:
				n = vt_below(20);
				for (size_t i = 0; i < n; i++) {
					t[i] = (char) ('a' + vt_below(3));
				}
				break;
			}
			add_str(t, n);
		}
	}
	present = vt_calloc(pool_n, sizeof(*present));
	held = vt_calloc(pool_n, sizeof(*held));
	seen = vt_calloc(pool_n, sizeof(*seen));
	stamp = 0;
}

static void free_pool(void)
{
	for (size_t i = 0; pool_str && i < pool_n; i++) {
		vt_free(pool_s[i]);
		vt_free(pool_s2[i]);
	}
	vt_free(held);
	vt_free(pool_k);
	vt_free(pool_s);
	vt_free(pool_s2);
	vt_free(present);
	vt_free(seen);
	vt_free(idx);
}

static int picked;

static const char *pick_str(size_t i)
{
	if (i == 0) {
		return NULL;
	}
	picked = vt_chance(1, 2) ? 1 : 2;
	return picked == 1 ? pool_s[i] : pool_s2[i];
}

/* the user frees the copies of the key the map has no business with */
static void renew(size_t i)
{
	if (!pool_str || i == 0) {
		return;
	}
	for (int k = 1; k <= 2; k++) {
		char **c = k == 1 ? &pool_s[i] : &pool_s2[i];
		if (held[i] != k) {
			char *n = exact(*c, strlen(*c));
			vt_free(*c);
			*c = n;
			vt_class(held[i] ? "key-copy-freed" : "absent-key-freed");
		}
	}
}

#define K int
#define VT int
#define NAME int
#define ISSTR 0
#define KMK(i) ((K) pool_k[i])
#define VMK(v) ((VT) (v))
#include "map_t.inc"
#define K int
#define VT void *
#define NAME intv
#define ISSTR 0
#define KMK(i) ((K) pool_k[i])
#define VMK(v) ((VT) (uintptr_t) (v))
#include "map_t.inc"
#define K int
#define VT const char *
#define NAME ints
#define ISSTR 0
#define KMK(i) ((K) pool_k[i])
#define VMK(v) ((VT) (uintptr_t) (v))
#include "map_t.inc"
#define K long long
#define VT long long
#define NAME ll
#define ISSTR 0
#define KMK(i) ((K) pool_k[i])
#define VMK(v) ((VT) (v))
#include "map_t.inc"
#define K long long
#define VT void *
#define NAME llv
#define ISSTR 0
#define KMK(i) ((K) pool_k[i])
#define VMK(v) ((VT) (uintptr_t) (v))
#include "map_t.inc"
#define K long long
#define VT const char *
#define NAME lls
#define ISSTR 0
#define KMK(i) ((K) pool_k[i])
#define VMK(v) ((VT) (uintptr_t) (v))
#include "map_t.inc"
#define K uint32_t
#define VT uint32_t
#define NAME 32
#define ISSTR 0
#define KMK(i) ((K) pool_k[i])
#define VMK(v) ((VT) (v))
#include "map_t.inc"
#define K uint64_t
#define VT uint64_t
#define NAME 64
#define ISSTR 0
#define KMK(i) ((K) pool_k[i])
#define VMK(v) ((VT) (v))
#include "map_t.inc"
#define K uint64_t
#define VT void *
#define NAME 64v
#define ISSTR 0
#define KMK(i) ((K) pool_k[i])
#define VMK(v) ((VT) (uintptr_t) (v))
#include "map_t.inc"
#define K uint64_t
#define VT const char *
#define NAME 64s
#define ISSTR 0
#define KMK(i) ((K) pool_k[i])
#define VMK(v) ((VT) (uintptr_t) (v))
#include "map_t.inc"
#define K const char *
#define VT const char *
#define NAME str
#define ISSTR 1
#define KMK(i) (pick_str(i))
#define VMK(v) ((VT) (uintptr_t) (v))
#include "map_t.inc"
#define K const char *
#define VT void *
#define NAME sv
#define ISSTR 1
#define KMK(i) (pick_str(i))
#define VMK(v) ((VT) (uintptr_t) (v))
#include "map_t.inc"
#define K const char *
#define VT uint64_t
#define NAME s64
#define ISSTR 1
#define KMK(i) (pick_str(i))
#define VMK(v) ((VT) (v))
#include "map_t.inc"
#define K const char *
#define VT long long
#define NAME sll
#define ISSTR 1
#define KMK(i) (pick_str(i))
#define VMK(v) ((VT) (v))
#include "map_t.inc"

void vt_case(uint64_t n)
{
	static void (*const fn[])(uint64_t) = {run_int, run_intv, run_ints, run_ll, run_llv, run_lls, run_32, run_64, run_64v, run_64s, run_str, run_sv, run_s64, run_sll};
	fn[vt_mix(n) % (sizeof(fn) / sizeof(fn[0]))](n);
}
