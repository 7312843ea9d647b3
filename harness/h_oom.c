/* Z01: one history over objects of every component that allocates, run once
 * undisturbed and then again with allocations refused at chosen points.  With
 * CUSTOM the components are built with replacement allocation functions that
 * tag every block with the component it was given to. */
#include "vt.h"
#include "sc_array.h"
#include "sc_buf.h"
#include "sc_heap.h"
#include "sc_map.h"
#include "sc_queue.h"
#include "sc_sock.h"
#include "sc_str.h"
#include "sc_timer.h"
#include "sc_uri.h"
#include <unistd.h>

/* ------------------------------------------------------------------ memory */
static uint64_t asked, refused, win_from, win_to, step_asked;
static long live_all;
static int cur = -1; /* component being called */

static bool refuse_now(void)
{
	asked++;
	if (asked > win_from && asked <= win_to) {
		refused++;
		errno = ENOMEM;
		return true;
	}
	return false;
}

enum { ARRAY, QUEUE, HEAP, MAP, BUF, STR, TIMER, URI, SOCK, NC };
static const char *cname[NC] = {"array", "queue", "heap", "map", "buffer", "string", "timer", "uri", "poll"};
static long live_c[NC];

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *vt_raw_malloc(size_t n) { return __real_malloc(n); }
void *vt_raw_calloc(size_t n, size_t m) { return __real_calloc(n, m); }
void *vt_raw_realloc(void *p, size_t n) { return __real_realloc(p, n); }
void vt_raw_free(void *p) { __real_free(p); }

#ifdef CUSTOM
struct hd {
	uint64_t magic, size, comp;
	uint64_t pad;
};
#define MAGIC 0x5a5a1234c0ffee77ull
static void *zz_new(int c, size_t n, bool zero)
{
	struct hd *h;
	VT_CHECK(cur == c, "a call of the %s component allocates with the functions of the %s component", cur < 0 ? "?" : cname[cur], cname[c]);
	if (n > (1ull << 34) || refuse_now()) {
		return NULL;
	}
	h = __real_malloc(sizeof(*h) + n);
	*h = (struct hd){MAGIC, n, (uint64_t) c, 0};
	memset(h + 1, zero ? 0 : 0xa5, n);
	live_c[c]++;
	live_all++;
	return h + 1;
}
static void zz_del(int c, void *p)
{
	struct hd *h = (struct hd *) p - 1;
	if (p == NULL) {
		return;
	}
	VT_CHECK(h->magic == MAGIC, "the %s component releases a block it was not given by its own functions", cname[c]);
	VT_CHECK(h->comp == (uint64_t) c, "the %s component releases a block of the %s component", cname[c], cname[h->comp]);
	h->magic = 0;
	live_c[c]--;
	live_all--;
	memset(p, 0x5a, h->size);
	__real_free(h);
}
static void *zz_move(int c, void *p, size_t n)
{
	struct hd *h = (struct hd *) p - 1;
	void *q;
	if (p != NULL) {
		VT_CHECK(h->magic == MAGIC && h->comp == (uint64_t) c, "the %s component resizes a block it was not given by its own functions", cname[c]);
	}
	q = zz_new(c, n, false);
	if (q != NULL && p != NULL) {
		memcpy(q, p, h->size < n ? h->size : n);
		zz_del(c, p);
	}
	return q;
}
#define ZZ_DEF(c, C)                                                           \
	void *zz_##c##_malloc(size_t n) { return zz_new(C, n, false); }        \
	void *zz_##c##_calloc(size_t n, size_t m)                              \
	{                                                                      \
		size_t t;                                                      \
		return __builtin_mul_overflow(n, m, &t) ? NULL : zz_new(C, t, true); \
	}                                                                      \
	void *zz_##c##_realloc(void *p, size_t n) { return zz_move(C, p, n); } \
	void zz_##c##_free(void *p) { zz_del(C, p); }
ZZ_DEF(array, ARRAY) ZZ_DEF(queue, QUEUE) ZZ_DEF(heap, HEAP) ZZ_DEF(map, MAP) ZZ_DEF(buf, BUF)
ZZ_DEF(str, STR) ZZ_DEF(timer, TIMER) ZZ_DEF(uri, URI) ZZ_DEF(sock, SOCK)
#define PLAIN(what) vt_fail("the %s component calls " what " although replacement functions are configured", cur < 0 ? "?" : cname[cur])
void *__wrap_malloc(size_t n) { PLAIN("malloc"); return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { PLAIN("calloc"); return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { PLAIN("realloc"); return __real_realloc(p, n); }
void __wrap_free(void *p)
{
	if (p != NULL) {
		PLAIN("free");
	}
	__real_free(p);
}
char *__wrap_strdup(const char *s) { PLAIN("strdup"); return (char *) s; }
char *__wrap_strndup(const char *s, size_t n) { (void) n; PLAIN("strndup"); return (char *) s; }
int __wrap_vasprintf(char **p, const char *f, va_list v) { (void) p, (void) f, (void) v; PLAIN("vasprintf"); return -1; }
#else
static void *made(void *p)
{
	if (p != NULL) {
		live_all++;
		live_c[cur < 0 ? 0 : cur]++;
	}
	return p;
}
void *__wrap_malloc(size_t n)
{
	void *p;
	if (n > (1ull << 34) || refuse_now()) {
		return NULL;
	}
	p = made(__real_malloc(n));
	if (p != NULL && n < 100000) {
		memset(p, 0xa5, n);
	}
	return p;
}
void *__wrap_calloc(size_t n, size_t m)
{
	size_t t;
	return __builtin_mul_overflow(n, m, &t) || t > (1ull << 34) || refuse_now() ? NULL : made(__real_calloc(n, m));
}
void *__wrap_realloc(void *p, size_t n)
{
	if (n > (1ull << 34) || refuse_now()) {
		return NULL;
	}
	return p == NULL ? made(__real_malloc(n)) : __real_realloc(p, n);
}
void __wrap_free(void *p)
{
	if (p != NULL) {
		live_all--;
		live_c[cur < 0 ? 0 : cur]--;
	}
	__real_free(p);
}
char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = __wrap_malloc(n);
	return p ? memcpy(p, s, n) : NULL;
}
char *__wrap_strndup(const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	char *p = __wrap_malloc(l + 1);
	if (p != NULL) {
		memcpy(p, s, l);
		p[l] = 0;
	}
	return p;
}
int __wrap_vasprintf(char **p, const char *f, va_list v)
{
	va_list w;
	va_copy(w, v);
	int n = vsnprintf(NULL, 0, f, w);
	va_end(w);
	*p = n < 0 ? NULL : __wrap_malloc((size_t) n + 1);
	return *p ? vsnprintf(*p, (size_t) n + 1, f, v) : -1;
}
#endif

/* ------------------------------------------------------------- the objects */
#define MAXN 600
static uint64_t h;
static vt_rng r; /* decides the history, the same for every run of a case */
static uint64_t rb(uint64_t n) { return vt_below_r(&r, n); }
static bool up[NC]; /* object initialised */
static bool had[NC]; /* refused at least once in this case */
static int cap_kind;

/* Every operation is: note, call, compare.  `ok` is what the call reported. */
static uint64_t r0, a0;
static char what[200];
static void before(int c, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	vsnprintf(what, sizeof(what), fmt, va);
	va_end(va);
	r0 = refused;
	a0 = asked;
	cur = c;
}
/* true: the operation happened; false: it did not */
static bool after(int c, bool ok)
{
	char name[40];
	cur = -1;
	vt_log("%s: %s -> %s%s", cname[c], what, ok ? "done" : "refused", refused != r0 ? " (allocation refused)" : asked != a0 ? " (allocated)" : "");
	if (!ok) {
		VT_CHECK(refused != r0, "%s: %s is refused although no allocation failed", cname[c], what);
		snprintf(name, sizeof(name), "refused.%s", cname[c]);
		vt_class(name);
		had[c] = true;
	} else {
		vt_event(1);
		if (refused != r0) {
			vt_class("done-in-spite-of-refusal"); /* fine: contents are compared */
		}
		if (had[c] && asked != a0) {
			snprintf(name, sizeof(name), "again.%s", cname[c]);
			vt_class(name);
		}
	}
	h = vt_hash(h, (uint64_t) c * 4 + ok * 2 + (refused != r0));
	return ok;
}
#define LIVE0(c) VT_CHECK(live_c[c] == 0, "%s: %ld blocks are not released", cname[c], live_c[c])

/* array */
static struct sc_array_64 arr;
static uint64_t arr_m[MAXN];
static size_t arr_n;
static void array_check(void)
{
	VT_CHECK(sc_array_size(&arr) == arr_n, "array: %zu elements, expected %zu", sc_array_size(&arr), arr_n);
	for (size_t i = 0; i < arr_n; i++) {
		VT_CHECK(sc_array_at(&arr, i) == arr_m[i], "array: element %zu changed", i);
	}
}
static void array_op(void)
{
	if (!up[ARRAY]) {
		memset(&arr, 0x77, sizeof(arr));
		sc_array_init(&arr);
		up[ARRAY] = true;
		arr_n = 0;
	}
	switch (rb(8)) {
	case 0:
		before(ARRAY, "term");
		sc_array_term(&arr);
		after(ARRAY, true);
		LIVE0(ARRAY);
		if (rb(2)) {
			before(ARRAY, "term again");
			sc_array_term(&arr);
			after(ARRAY, true);
		}
		arr_n = 0;
		if (rb(2)) {
			up[ARRAY] = false;
		}
		break;
	case 1:
		if (arr_n > 0) {
			sc_array_del_last(&arr);
			arr_n--;
		}
		break;
	default:
		for (uint64_t k = rb(2) ? 1 : rb(30); k > 0 && arr_n < MAXN; k--) {
			uint64_t v = vt_rnd_r(&r);
			before(ARRAY, "add to %zu elements", arr_n);
			sc_array_add(&arr, v);
			if (after(ARRAY, !sc_array_oom(&arr))) {
				arr_m[arr_n++] = v;
			} else {
				array_check();
			}
		}
	}
	if (up[ARRAY]) {
		array_check();
	}
}
static void array_end(void)
{
	if (up[ARRAY]) {
		sc_array_term(&arr);
	}
	up[ARRAY] = false;
}

/* queue */
static struct sc_queue_64 que;
static uint64_t que_m[MAXN * 2 + 2];
static size_t que_f, que_l;
static void queue_check(void)
{
	VT_CHECK(sc_queue_size(&que) == que_l - que_f, "queue: %zu elements, expected %zu", sc_queue_size(&que), que_l - que_f);
	VT_CHECK(sc_queue_empty(&que) == (que_l == que_f), "queue: says empty with %zu elements", que_l - que_f);
	for (size_t i = 0; i < que_l - que_f; i++) {
		VT_CHECK(sc_queue_at(&que, i) == que_m[que_f + i], "queue: element %zu changed", i);
	}
}
static void queue_op(void)
{
	if (!up[QUEUE]) {
		before(QUEUE, "init");
		memset(&que, 0x77, sizeof(que));
		sc_queue_init(&que);
		que_f = que_l = MAXN;
		if (!after(QUEUE, !sc_queue_oom(&que))) {
			/* a queue that could not be created refuses every element */
			uint64_t v = vt_rnd_r(&r);
			VT_CHECK(sc_queue_size(&que) == 0 && sc_queue_empty(&que), "queue: not empty after a failed init");
			if (rb(2)) {
				cur = QUEUE;
				sc_queue_add_last(&que, v);
				cur = -1;
				if (!sc_queue_oom(&que)) {
					que_m[que_l++] = v;
					queue_check();
				}
			}
			cur = QUEUE;
			sc_queue_term(&que);
			cur = -1;
			LIVE0(QUEUE);
			return;
		}
		up[QUEUE] = true;
	}
	switch (rb(8)) {
	case 0:
		before(QUEUE, "term");
		sc_queue_term(&que);
		after(QUEUE, true);
		LIVE0(QUEUE);
		up[QUEUE] = false;
		return;
	case 1:
	case 2:
		for (uint64_t k = rb(12); k > 0 && que_l != que_f; k--) {
			uint64_t v;
			if (rb(2)) {
				v = sc_queue_del_first(&que);
				VT_CHECK(v == que_m[que_f], "queue: wrong first element");
				que_f++;
			} else {
				v = sc_queue_del_last(&que);
				VT_CHECK(v == que_m[que_l - 1], "queue: wrong last element");
				que_l--;
			}
		}
		break;
	default:
		for (uint64_t k = rb(2) ? 1 : rb(30); k > 0; k--) {
			uint64_t v = vt_rnd_r(&r);
			bool first = rb(2);
			if (que_f == 0 || que_l == 2 * MAXN) {
				break;
			}
			before(QUEUE, "add %s to %zu elements", first ? "first" : "last", que_l - que_f);
			if (first) {
				sc_queue_add_first(&que, v);
			} else {
				sc_queue_add_last(&que, v);
			}
			if (after(QUEUE, !sc_queue_oom(&que))) {
				if (first) {
					que_m[--que_f] = v;
				} else {
					que_m[que_l++] = v;
				}
			} else {
				queue_check();
			}
		}
	}
	queue_check();
}
static void queue_end(void)
{
	if (up[QUEUE]) {
		sc_queue_term(&que);
	}
	up[QUEUE] = false;
}

/* heap: compared by draining a copy of the keys at the end, its top always */
static struct sc_heap heap;
static int64_t heap_m[MAXN];
static char heap_tag[MAXN];
static size_t heap_n;
static size_t heap_min(void)
{
	size_t m = 0;
	for (size_t i = 1; i < heap_n; i++) {
		if (heap_m[i] < heap_m[m]) {
			m = i;
		}
	}
	return m;
}
static void heap_check(void)
{
	struct sc_heap_data *d = sc_heap_peek(&heap);
	VT_CHECK(sc_heap_size(&heap) == heap_n, "heap: %zu elements, expected %zu", sc_heap_size(&heap), heap_n);
	VT_CHECK((d == NULL) == (heap_n == 0), "heap: peek says empty with %zu elements", heap_n);
	if (d != NULL) {
		VT_CHECK(d->key == heap_m[heap_min()], "heap: wrong smallest key");
	}
}
static void heap_pop1(void)
{
	struct sc_heap_data *d = sc_heap_pop(&heap);
	size_t m = heap_min();
	VT_CHECK(d != NULL && d->key == heap_m[m], "heap: popped the wrong key");
	VT_CHECK((char *) d->data >= heap_tag && (char *) d->data < heap_tag + MAXN, "heap: popped with other data");
	heap_m[m] = heap_m[--heap_n];
}
static void heap_op(void)
{
	if (!up[HEAP]) {
		size_t cap = rb(2) ? 0 : rb(40);
		before(HEAP, "init with %zu", cap);
		memset(&heap, 0x77, sizeof(heap));
		heap_n = 0;
		if (!after(HEAP, sc_heap_init(&heap, cap))) {
			cur = HEAP;
			sc_heap_term(&heap);
			cur = -1;
			LIVE0(HEAP);
			return;
		}
		up[HEAP] = true;
	}
	switch (rb(10)) {
	case 0:
		before(HEAP, "term");
		sc_heap_term(&heap);
		after(HEAP, true);
		LIVE0(HEAP);
		up[HEAP] = false;
		return;
	case 1:
		sc_heap_clear(&heap);
		heap_n = 0;
		break;
	case 2:
	case 3:
		for (uint64_t k = rb(10); k > 0 && heap_n > 0; k--) {
			heap_pop1();
		}
		break;
	default:
		for (uint64_t k = rb(2) ? 1 : rb(30); k > 0 && heap_n < MAXN; k--) {
			int64_t v = (int64_t) rb(1000) - 500;
			before(HEAP, "add to %zu elements", heap_n);
			if (after(HEAP, sc_heap_add(&heap, v, &heap_tag[heap_n]))) {
				heap_m[heap_n++] = v;
			} else {
				heap_check();
			}
		}
	}
	heap_check();
}
static void heap_end(void)
{
	if (up[HEAP]) {
		while (heap_n > 0) {
			heap_pop1();
		}
		heap_check();
		sc_heap_term(&heap);
	}
	up[HEAP] = false;
}

/* map: a numeric and a text one */
static struct sc_map_64 map;
static struct sc_map_s64 mapt;
#define KEYS 120
static bool map_has[2][KEYS];
static uint64_t map_v[2][KEYS];
static char keytext[KEYS][16];
static void map_check(void)
{
	for (int t = 0; t < 2; t++) {
		uint32_t n = 0;
		for (int i = 0; i < KEYS; i++) {
			uint64_t v = t ? sc_map_get_s64(&mapt, i ? keytext[i] : NULL) : sc_map_get_64(&map, (uint64_t) i * 977);
			bool f = t ? sc_map_found(&mapt) : sc_map_found(&map);
			n += map_has[t][i];
			VT_CHECK(f == map_has[t][i], "map: key %d is %s", i, f ? "there although never added or deleted" : "lost");
			if (f) {
				VT_CHECK(v == map_v[t][i], "map: key %d has another value", i);
			}
		}
		VT_CHECK((t ? sc_map_size_s64(&mapt) : sc_map_size_64(&map)) == n, "map: wrong element count");
	}
}
static void map_op(void)
{
	if (!up[MAP]) {
		uint32_t c1 = rb(2) ? 0 : (uint32_t) rb(50), c2 = rb(2) ? 0 : (uint32_t) rb(50);
		bool a, b;
		before(MAP, "init with %u", c1);
		memset(map_has, 0, sizeof(map_has));
		if (!(a = after(MAP, sc_map_init_64(&map, c1, 0)))) {
			LIVE0(MAP);
			return;
		}
		before(MAP, "init text map with %u", c2);
		b = after(MAP, sc_map_init_s64(&mapt, c2, 0));
		if (!b) {
			cur = MAP;
			sc_map_term_64(&map);
			cur = -1;
			LIVE0(MAP);
			return;
		}
		up[MAP] = true;
	}
	switch (rb(10)) {
	case 0:
		before(MAP, "term");
		sc_map_term_64(&map);
		sc_map_term_s64(&mapt);
		after(MAP, true);
		LIVE0(MAP);
		up[MAP] = false;
		return;
	case 1:
		sc_map_clear_64(&map);
		memset(map_has[0], 0, sizeof(map_has[0]));
		break;
	case 2:
		for (uint64_t k = rb(20); k > 0; k--) {
			int t = (int) rb(2), i = (int) rb(KEYS);
			if (t) {
				sc_map_del_s64(&mapt, i ? keytext[i] : NULL);
			} else {
				sc_map_del_64(&map, (uint64_t) i * 977);
			}
			map_has[t][i] = false;
		}
		break;
	default:
		for (uint64_t k = rb(2) ? 1 : rb(40); k > 0; k--) {
			int t = (int) rb(2), i = rb(12) ? (int) rb(KEYS) : 0;
			uint64_t v = vt_rnd_r(&r);
			bool ok;
			before(MAP, "put key %d into the %s map", i, t ? "text" : "number");
			if (t) {
				sc_map_put_s64(&mapt, i ? keytext[i] : NULL, v);
				ok = !sc_map_oom(&mapt);
			} else {
				sc_map_put_64(&map, (uint64_t) i * 977, v);
				ok = !sc_map_oom(&map);
			}
			if (after(MAP, ok)) {
				map_has[t][i] = true;
				map_v[t][i] = v;
			} else {
				map_check();
			}
		}
	}
	map_check();
}
static void map_end(void)
{
	if (up[MAP]) {
		sc_map_term_64(&map);
		sc_map_term_s64(&mapt);
	}
	up[MAP] = false;
}

/* buffer */
static struct sc_buf buf;
static unsigned char *buf_m;
static size_t buf_r, buf_w, buf_txt; /* buf_txt: end of the last text, or 0 */
#define BUFMAX 60000
static void buf_check(void)
{
	VT_CHECK(sc_buf_rpos(&buf) == buf_r && sc_buf_wpos(&buf) == buf_w, "buffer: positions %" PRIu64 "/%" PRIu64 ", expected %zu/%zu", sc_buf_rpos(&buf),
		 sc_buf_wpos(&buf), buf_r, buf_w);
	VT_CHECK(sc_buf_cap(&buf) >= buf_w, "buffer: capacity below its contents");
	VT_CHECK(buf_w == 0 || memcmp(sc_buf_at(&buf, 0), buf_m, buf_w) == 0, "buffer: contents changed");
}
static void buf_op(void)
{
	unsigned char tmp[6000];
	if (!up[BUF]) {
		uint64_t cap = rb(2) ? 0 : rb(9000);
		before(BUF, "init with %" PRIu64, cap);
		memset(&buf, 0x77, sizeof(buf));
		buf_r = buf_w = buf_txt = 0;
		if (!after(BUF, sc_buf_init(&buf, cap))) {
			cur = BUF;
			sc_buf_term(&buf);
			cur = -1;
			LIVE0(BUF);
			return;
		}
		up[BUF] = true;
	}
	switch (rb(10)) {
	case 0:
		before(BUF, "term");
		sc_buf_term(&buf);
		after(BUF, true);
		LIVE0(BUF);
		up[BUF] = false;
		return;
	case 1: {
		uint64_t n = rb(9000);
		before(BUF, "reserve %" PRIu64, n);
		if (!after(BUF, sc_buf_reserve(&buf, n))) {
			VT_CHECK(!sc_buf_valid(&buf), "buffer: valid after a refused reservation");
			buf_check();
			goto invalid;
		}
		VT_CHECK(sc_buf_quota(&buf) >= n, "buffer: reserved less than asked");
		break;
	}
	case 2: {
		uint64_t n = rb(3) ? rb(9000) : 0;
		before(BUF, "shrink to %" PRIu64, n);
		bool ok = sc_buf_shrink(&buf, n);
		memmove(buf_m, buf_m + buf_r, buf_w - buf_r);
		buf_w -= buf_r;
		buf_txt = buf_txt > buf_r ? buf_txt - buf_r : 0;
		buf_r = 0;
		if (!after(BUF, ok)) {
			VT_CHECK(!sc_buf_valid(&buf), "buffer: valid after a refused shrink");
			buf_check();
			goto invalid;
		}
		break;
	}
	case 3: {
		size_t n = rb(buf_w - buf_r + 1);
		sc_buf_mark_read(&buf, n);
		buf_r += n;
		break;
	}
	case 4: {
		int n = (int) rb(5000), a;
		if (buf_w > BUFMAX - 6000 || (buf_w != buf_r && buf_txt != buf_w)) {
			break; /* text is appended to text */
		}
		memset(tmp, 'x', sizeof(tmp));
		before(BUF, "put formatted, %d", n);
		a = buf_w > buf_r ? 1 : 0; /* over the end of the text */
		sc_buf_put_text(&buf, "%.*s|", n, (char *) tmp);
		if (!after(BUF, sc_buf_valid(&buf))) {
			if (sc_buf_wpos(&buf) == 0) {
				buf_r = buf_w = 0; /* a refused text empties the buffer */
			}
			buf_check();
			goto invalid;
		}
		buf_w -= (size_t) a;
		memset(buf_m + buf_w, 'x', (size_t) n);
		buf_w += (size_t) n;
		buf_m[buf_w++] = '|';
		buf_m[buf_w++] = 0;
		buf_txt = buf_w;
		break;
	}
	default: {
		size_t n = rb(2) ? rb(100) : rb(sizeof(tmp));
		if (buf_w > BUFMAX - 6000) {
			break;
		}
		for (size_t i = 0; i < n; i++) {
			tmp[i] = (unsigned char) vt_rnd_r(&r);
		}
		before(BUF, "put %zu bytes", n);
		sc_buf_put_raw(&buf, tmp, n);
		if (!after(BUF, sc_buf_valid(&buf))) {
			buf_check();
			goto invalid;
		}
		memcpy(buf_m + buf_w, tmp, n);
		buf_w += n;
		buf_txt = n == 0 ? buf_txt : 0;
	}
	}
	VT_CHECK(sc_buf_valid(&buf), "buffer: invalid although nothing failed");
	buf_check();
	return;
invalid:
	/* the flag is sticky: cleared, or the buffer is given up */
	if (rb(2)) {
		sc_buf_clear(&buf);
		buf_r = buf_w = 0;
		VT_CHECK(sc_buf_valid(&buf), "buffer: invalid after clear");
		buf_check();
	} else {
		cur = BUF;
		sc_buf_term(&buf);
		cur = -1;
		LIVE0(BUF);
		up[BUF] = false;
	}
}
static void buf_end(void)
{
	if (up[BUF]) {
		sc_buf_term(&buf);
	}
	up[BUF] = false;
}

/* string */
static char *str, *str2, *str_m, *str_t;
static size_t str_n;
#define STRMAX 9000
static void str_is(const char *s, const char *name)
{
	VT_CHECK(s != NULL && sc_str_len(s) == (int64_t) str_n && memcmp(s, str_m, str_n + 1) == 0, "string: %s is %.60s..., expected %.60s...", name,
		 s ? s : "(null)", str_m);
}
static void str_op(void)
{
	size_t n = rb(2) ? rb(30) : rb(2000), a, b, t;
	bool ok;
	char *p;
	for (size_t i = 0; i < n; i++) {
		str_t[i] = "abc-"[rb(4)];
	}
	str_t[n] = 0;
	if (!up[STR]) {
		before(STR, "create with %zu", n);
		str = rb(2) ? sc_str_create(str_t) : sc_str_create_len(str_t, (uint32_t) n);
		if (!after(STR, str != NULL)) {
			return;
		}
		up[STR] = true;
		strcpy(str_m, str_t);
		str_n = n;
	}
	switch (rb(10)) {
	case 0:
		before(STR, "destroy");
		sc_str_destroy(&str);
		after(STR, true);
		VT_CHECK(str == NULL, "string: not NULL after destroy");
		sc_str_destroy(&str);
		LIVE0(STR);
		up[STR] = false;
		return;
	case 1:
		before(STR, "set");
		if (after(STR, sc_str_set(&str, str_t))) {
			strcpy(str_m, str_t);
			str_n = n;
		}
		break;
	case 2:
		before(STR, "set formatted");
		ok = rb(2) ? sc_str_set_fmt(&str, "%s/%s", str_t, "z") : sc_str_set_fmt(&str, "%s/z", str_t);
		if (after(STR, ok)) {
			strcpy(str_m, str_t);
			strcpy(str_m + n, "/z");
			str_n = n + 2;
		}
		break;
	case 3:
		before(STR, "duplicate");
		str2 = sc_str_dup(str);
		if (after(STR, str2 != NULL)) {
			str_is(str2, "the duplicate");
			cur = STR;
			sc_str_destroy(&str2);
			cur = -1;
		}
		break;
	case 4:
		before(STR, "trim");
		if (after(STR, sc_str_trim(&str, "a-"))) {
			for (a = 0; a < str_n && strchr("a-", str_m[a]); a++) {}
			for (b = str_n; b > a && strchr("a-", str_m[b - 1]); b--) {}
			memmove(str_m, str_m + a, b - a);
			str_n = b - a;
			str_m[str_n] = 0;
		}
		break;
	case 5:
		a = rb(str_n + 1);
		b = a + rb(str_n - a + 1);
		before(STR, "substring %zu-%zu", a, b);
		if (after(STR, sc_str_substring(&str, (uint32_t) a, (uint32_t) b))) {
			memmove(str_m, str_m + a, b - a);
			str_n = b - a;
			str_m[str_n] = 0;
		}
		break;
	case 6:
		if (str_n > 2000) {
			break;
		}
		before(STR, "replace");
		if (after(STR, sc_str_replace(&str, "ab", "<->"))) {
			for (t = 0, p = str_m; *p;) {
				if (p[0] == 'a' && p[1] == 'b') {
					memcpy(str_t + t, "<->", 3);
					t += 3;
					p += 2;
				} else {
					str_t[t++] = *p++;
				}
			}
			str_t[t] = 0;
			memcpy(str_m, str_t, t + 1);
			str_n = t;
		}
		break;
	default:
		if (str_n + n + 10 > STRMAX) {
			break;
		}
		before(STR, "append %zu to %zu", n, str_n);
		ok = rb(2) ? sc_str_append(&str, str_t) : sc_str_append_fmt(&str, "%s", str_t);
		if (after(STR, ok)) {
			memcpy(str_m + str_n, str_t, n + 1);
			str_n += n;
		}
	}
	str_is(str, "the text");
	VT_CHECK(live_c[STR] == 1, "string: %ld blocks for one string", live_c[STR]);
}
static void str_end(void)
{
	if (up[STR]) {
		sc_str_destroy(&str);
	}
	up[STR] = false;
}

/* timer */
static struct sc_timer tmr;
static uint64_t tmr_now, tmr_due[MAXN], tmr_id[MAXN];
static int tmr_st[MAXN], tmr_n; /* 0 pending 1 fired 2 cancelled */
static void tmr_cb(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	VT_CHECK(arg == &tmr, "timer: wrong argument");
	VT_CHECK(type < (uint64_t) tmr_n && data == &tmr_due[type], "timer: fired with other data");
	VT_CHECK(tmr_st[type] == 0, "timer: timer %d fired although %s", (int) type, tmr_st[type] == 1 ? "already fired" : "cancelled");
	VT_CHECK(tmr_due[type] == timeout && timeout <= tmr_now, "timer: timer %d fired with another due time or too early", (int) type);
	tmr_st[type] = 1;
}
static void tmr_drain(void)
{
	for (int k = 0; k < 3; k++) {
		tmr_now += 1u << 20;
		cur = TIMER;
		sc_timer_timeout(&tmr, tmr_now, &tmr, tmr_cb);
		cur = -1;
	}
	for (int i = 0; i < tmr_n; i++) {
		VT_CHECK(tmr_st[i] != 0, "timer: timer %d never fired", i);
	}
	tmr_n = 0;
}
static void timer_op(void)
{
	if (!up[TIMER]) {
		tmr_now = rb(1u << 30);
		memset(&tmr, 0x77, sizeof(tmr));
		sc_timer_init(&tmr, tmr_now);
		tmr_n = 0;
		up[TIMER] = true;
	}
	switch (rb(10)) {
	case 0:
		before(TIMER, "term");
		sc_timer_term(&tmr);
		after(TIMER, true);
		LIVE0(TIMER);
		up[TIMER] = false;
		return;
	case 1:
		before(TIMER, "drain");
		tmr_drain();
		after(TIMER, true);
		break;
	case 2:
		sc_timer_clear(&tmr);
		tmr_n = 0;
		break;
	case 3:
		tmr_now += rb(400);
		sc_timer_timeout(&tmr, tmr_now, &tmr, tmr_cb);
		break;
	case 4:
		if (tmr_n > 0) {
			int i = (int) rb((uint64_t) tmr_n);
			if (tmr_st[i] == 0) {
				sc_timer_cancel(&tmr, &tmr_id[i]);
				tmr_st[i] = 2;
			}
		}
		break;
	default:
		for (uint64_t k = rb(2) ? 1 : rb(30); k > 0 && tmr_n < MAXN; k--) {
			uint64_t to = rb(3) ? rb(300) : rb(16);
			before(TIMER, "add to %d", tmr_n);
			tmr_id[tmr_n] = sc_timer_add(&tmr, to, (uint64_t) tmr_n, &tmr_due[tmr_n]);
			if (after(TIMER, tmr_id[tmr_n] != SC_TIMER_INVALID)) {
				tmr_due[tmr_n] = tmr_now + to;
				tmr_st[tmr_n++] = 0;
			}
		}
	}
}
static void timer_end(void)
{
	if (up[TIMER]) {
		tmr_drain();
		cur = TIMER;
		sc_timer_term(&tmr);
	}
	up[TIMER] = false;
}

/* uri */
static struct sc_uri *uri;
static char uri_t[300];
static int uri_port;
static void uri_check(void)
{
	char p[10];
	snprintf(p, sizeof(p), "%d", uri_port);
	VT_CHECK(strcmp(uri->str, uri_t) == 0 && strcmp(uri->scheme, "http") == 0 && strcmp(uri->userinfo, "u") == 0 && strcmp(uri->host, "h.de") == 0 &&
		 strcmp(uri->port, p) == 0 && strcmp(uri->query, "q=1") == 0 && strcmp(uri->fragment, "f") == 0, "uri: the parsed components changed");
}
static void uri_op(void)
{
	if (up[URI] && rb(2)) {
		uri_check();
		before(URI, "destroy");
		sc_uri_destroy(uri);
		after(URI, true);
		LIVE0(URI);
		up[URI] = false;
	}
	if (!up[URI]) {
		uri_port = (int) rb(65536);
		snprintf(uri_t, sizeof(uri_t), "http://u@h.de:%d/%.*s?q=1#f", uri_port, (int) rb(200), str_t);
		before(URI, "create");
		uri = sc_uri_create(uri_t);
		if (!after(URI, uri != NULL)) {
			LIVE0(URI);
			return;
		}
		up[URI] = true;
	}
	uri_check();
}
static void uri_end(void)
{
	if (up[URI]) {
		sc_uri_destroy(uri);
	}
	up[URI] = false;
}

/* poll */
static struct sc_sock_poll poll_;
static struct sc_sock_pipe pp;
static bool pp_up, pp_reg, pp_data;
static void sock_op(void)
{
	int n;
	char c = 1;
	if (!pp_up) {
		if (sc_sock_pipe_init(&pp, 7) != 0) {
			vt_die("pipe: %s", sc_sock_pipe_err(&pp));
		}
		pp_up = true;
		pp_data = false;
	}
	if (!up[SOCK]) {
		int fds = vt_fd_count();
		before(SOCK, "init");
		memset(&poll_, 0x77, sizeof(poll_));
		n = sc_sock_poll_init(&poll_);
		pp_reg = false;
		if (!after(SOCK, n == 0)) {
			VT_CHECK(n == -1 && sc_sock_poll_err(&poll_)[0] != 0, "poll: a failed init reports %d without text", n);
			VT_CHECK(vt_fd_count() == fds, "poll: a failed init leaves a descriptor open");
			LIVE0(SOCK);
			if (rb(2)) {
				cur = SOCK;
				sc_sock_poll_term(&poll_);
				cur = -1;
			}
			return;
		}
		up[SOCK] = true;
	}
	switch (rb(5)) {
	case 0:
		before(SOCK, "term");
		n = sc_sock_poll_term(&poll_);
		after(SOCK, true);
		VT_CHECK(n == 0, "poll: term fails");
		LIVE0(SOCK);
		up[SOCK] = false;
		sc_sock_pipe_term(&pp);
		pp_up = false;
		return;
	case 1:
		if (!pp_data) {
			VT_CHECK(sc_sock_pipe_write(&pp, &c, 1) == 1, "poll: writing to a pipe fails");
			pp_data = true;
		}
		break;
	case 2:
		before(SOCK, "%s", pp_reg ? "delete" : "add");
		n = pp_reg ? sc_sock_poll_del(&poll_, &pp.fdt, SC_SOCK_READ, &pp) : sc_sock_poll_add(&poll_, &pp.fdt, SC_SOCK_READ, &pp);
		if (after(SOCK, n == 0)) {
			pp_reg = !pp_reg;
		}
		break;
	default:
		n = sc_sock_poll_wait(&poll_, 0);
		VT_CHECK(n == (pp_reg && pp_data), "poll: reports %d descriptors, expected %d", n, pp_reg && pp_data);
		if (n == 1) {
			VT_CHECK(sc_sock_poll_data(&poll_, 0) == &pp && (sc_sock_poll_event(&poll_, 0) & SC_SOCK_READ), "poll: wrong data or events");
			VT_CHECK(sc_sock_pipe_read(&pp, &c, 1) == 1, "poll: reading fails");
			pp_data = false;
		}
	}
}
static void sock_end(void)
{
	if (up[SOCK]) {
		VT_CHECK(sc_sock_poll_term(&poll_) == 0, "poll: term fails");
	}
	if (pp_up) {
		sc_sock_pipe_term(&pp);
	}
	up[SOCK] = pp_up = false;
}

static void (*op[NC])(void) = {array_op, queue_op, heap_op, map_op, buf_op, str_op, timer_op, uri_op, sock_op};
static void (*end[NC])(void) = {array_end, queue_end, heap_end, map_end, buf_end, str_end, timer_end, uri_end, sock_end};

static void history(uint64_t seed, uint64_t steps, uint64_t comps, uint64_t from, uint64_t to)
{
	int fds = vt_fd_count();
	r.s = seed;
	asked = refused = 0;
	win_from = from;
	win_to = to;
	live_all = 0;
	memset(live_c, 0, sizeof(live_c));
	memset(up, 0, sizeof(up));
	memset(had, 0, sizeof(had));
	for (uint64_t s = 0; s < steps; s++) {
		int c;
		do {
			c = (int) rb(NC);
		} while (!((comps >> c) & 1));
		op[c]();
		/* refusals end once they were seen for a while */
		if (win_to == UINT64_MAX && refused > 0 && rb(4) == 0) {
			win_from = win_to = 0;
		}
	}
	win_from = win_to = 0;
	/* with memory available everything works again */
	for (int c = 0; c < NC; c++) {
		if (had[c]) {
			for (int k = 0; k < 4; k++) {
				op[c]();
			}
		}
	}
	for (int c = 0; c < NC; c++) {
		cur = c;
		end[c]();
		cur = -1;
		LIVE0(c);
	}
	VT_CHECK(live_all == 0, "%ld blocks are left at the end", live_all);
	VT_CHECK(vt_fd_count() == fds, "descriptors are left open at the end");
}

void vt_setup(void)
{
	buf_m = vt_malloc(BUFMAX + 10000);
	str_m = vt_malloc(STRMAX * 2);
	str_t = vt_malloc(STRMAX * 2);
	memset(str_t, 'p', STRMAX);
	for (int i = 0; i < KEYS; i++) {
		snprintf(keytext[i], sizeof(keytext[i]), "key%d", i * 31);
	}
}

void vt_case(uint64_t n)
{
	uint64_t seed = vt_rnd(), steps = 4 + vt_below(vt_chance(1, 3) ? 60 : 20), comps, total, runs;
	(void) n;
	comps = vt_chance(1, 2) ? (1u << NC) - 1 : 1ull << vt_below(NC);
	if (vt_chance(1, 3)) {
		comps |= 1ull << vt_below(NC);
	}
	h = 1;
	vt_log("undisturbed");
	memset(str_t, 'p', 300);
	history(seed, steps, comps, 0, 0);
	total = asked;
	vt_state(h);
	if (vt_want_sample()) {
		vt_sample("%" PRIu64 " steps over components %" PRIx64 ", %" PRIu64 " allocations, each refused in turn", steps, comps, total);
	}
	runs = total < 40 ? total : 40;
	if (runs == total) {
		vt_class("every-allocation-refused");
	}
	for (uint64_t k = 0; k < runs; k++) {
		uint64_t at = runs == total ? k : vt_below(total);
		uint64_t len = vt_chance(2, 3) ? 1 : vt_chance(1, 2) ? 2 + vt_below(4) : 0;
		vt_log_reset();
		vt_log("refused from allocation %" PRIu64 " on, %" PRIu64 " times", at + 1, len);
		memset(str_t, 'p', 300);
		h = vt_hash(2, at);
		history(seed, steps, comps, at, len ? at + len : UINT64_MAX);
		VT_CHECK(len != 1 || refused >= 1, "the same history made other allocations");
		vt_state(h);
	}
}
