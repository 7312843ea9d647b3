/* Z02: threads that each use objects of their own, of every kind, against the
 * results the same work gives when done alone. */
#include "vt.h"
#include "sc.h"
#include "sc_array.h"
#include "sc_buf.h"
#include "sc_cond.h"
#include "sc_crc32.h"
#include "sc_heap.h"
#include "sc_ini.h"
#include "sc_list.h"
#include "sc_map.h"
#include "sc_mmap.h"
#include "sc_mutex.h"
#include "sc_option.h"
#include "sc_queue.h"
#include "sc_sock.h"
#include "sc_str.h"
#include "sc_thread.h"
#include "sc_time.h"
#include "sc_timer.h"
#include "sc_uri.h"
#define NOISE_ONLY
#include "sync.inc"

struct ctx {
	vt_rng r;
	int tid; /* for names that must differ */
	uint64_t d;
};
#define RB(n) vt_below_r(&c->r, (n))
#define D(v) (c->d = vt_hash(c->d, (uint64_t) (v)))
#define DS(s) (c->d = ds(c->d, (s)))
static uint64_t ds(uint64_t d, const char *s) { return s ? vt_hash_bytes(d, s, strlen(s)) : vt_hash(d, 77); }

static int cmp64(const void *a, const void *b)
{
	uint64_t x = *(const uint64_t *) a, y = *(const uint64_t *) b;
	return x < y ? -1 : x > y;
}
static void w_array(struct ctx *c)
{
	struct sc_array_64 a;
	uint64_t e;
	sc_array_init(&a);
	for (uint64_t n = RB(60); n > 0; n--) {
		if (RB(4) == 0 && sc_array_size(&a) > 0) {
			uint64_t i = RB(sc_array_size(&a));
			sc_array_del(&a, i);
		} else {
			sc_array_add(&a, vt_rnd_r(&c->r));
		}
		noise();
	}
	if (sc_array_size(&a) > 0) {
		sc_array_sort(&a, cmp64);
	}
	sc_array_foreach (&a, e) {
		D(e);
	}
	sc_array_term(&a);
}
static void w_queue(struct ctx *c)
{
	struct sc_queue_64 q;
	sc_queue_init(&q);
	for (uint64_t n = RB(80); n > 0; n--) {
		switch (sc_queue_empty(&q) ? RB(2) : RB(4)) {
		case 0: sc_queue_add_first(&q, n); break;
		case 1: sc_queue_add_last(&q, n); break;
		case 2: D(sc_queue_del_first(&q)); break;
		default: D(sc_queue_del_last(&q)); break;
		}
		D(sc_queue_size(&q));
		noise();
	}
	sc_queue_term(&q);
}
static void w_heap(struct ctx *c)
{
	struct sc_heap hp;
	struct sc_heap_data *d;
	D(sc_heap_init(&hp, RB(20)));
	for (uint64_t n = RB(60); n > 0; n--) {
		if (RB(3)) {
			D(sc_heap_add(&hp, (int64_t) RB(1u << 20), NULL));
		} else if ((d = sc_heap_pop(&hp)) != NULL) {
			noise();
			D(d->key);
		}
	}
	while ((d = sc_heap_pop(&hp)) != NULL) {
		noise();
		D(d->key);
	}
	sc_heap_term(&hp);
}
struct node {
	int v;
	struct sc_list l;
};
static void w_list(struct ctx *c)
{
	struct sc_list l, *it, *tmp;
	struct node n[20];
	sc_list_init(&l);
	for (int i = 0; i < 20; i++) {
		n[i].v = (int) RB(1000);
		sc_list_init(&n[i].l);
		if (RB(2)) {
			sc_list_add_head(&l, &n[i].l);
		} else {
			sc_list_add_tail(&l, &n[i].l);
		}
	}
	sc_list_foreach_safe (&l, tmp, it) {
		struct node *e = sc_list_entry(it, struct node, l);
		D(e->v);
		noise();
		if (e->v % 3 == 0) {
			sc_list_del(&l, it);
		}
	}
	D(sc_list_count(&l));
}
static void w_map(struct ctx *c)
{
	static const char *const k[8] = {"a", "b", "cc", "dd", "eee", "fff", "gggg", NULL};
	struct sc_map_64 m;
	struct sc_map_str s;
	uint64_t key, val, x = 0;
	uint32_t cap = RB(2) ? 0 : (uint32_t) RB(40);
	/* maps without memory of their own share a read-only table */
	D(sc_map_init_64(&m, cap, 0));
	D(sc_map_init_str(&s, RB(2) ? 0 : 8, 0));
	for (uint64_t n = RB(4) ? RB(60) : 0; n > 0; n--) {
		key = RB(20) * 3;
		switch (RB(8)) {
		case 0: D(sc_map_del_64(&m, key)); D(sc_map_found(&m)); break;
		case 1: D(sc_map_get_64(&m, key)); D(sc_map_found(&m)); break;
		case 2: DS(sc_map_get_str(&s, k[RB(8)])); D(sc_map_found(&s)); break;
		case 3: DS(sc_map_del_str(&s, k[RB(8)])); D(sc_map_found(&s)); break;
		case 4: DS(sc_map_put_str(&s, k[RB(8)], k[RB(7)])); break;
		case 5:
			if (RB(8) == 0) {
				sc_map_clear_64(&m);
				sc_map_clear_str(&s);
			}
			break;
		default: D(sc_map_put_64(&m, key, n)); break;
		}
		noise();
	}
	D(sc_map_get_64(&m, 5));
	D(sc_map_del_64(&m, 0));
	DS(sc_map_get_str(&s, NULL));
	DS(sc_map_del_str(&s, "zz"));
	sc_map_foreach (&m, key, val) {
		x += vt_mix(key) ^ val;
		noise();
	}
	D(x);
	D(sc_map_size_64(&m));
	D(sc_map_size_str(&s));
	sc_map_clear_64(&m);
	sc_map_term_64(&m);
	sc_map_term_str(&s);
	D(sc_map_get_64(&m, 5));
}
static void w_buf(struct ctx *c)
{
	struct sc_buf b;
	char t[200];
	D(sc_buf_init(&b, RB(100)));
	uint64_t n = RB(12);
	for (uint64_t i = 0; i < n; i++) {
		uint64_t v = vt_rnd_r(&c->r);
		memset(t, (int) ('a' + RB(26)), sizeof(t));
		sc_buf_put_64(&b, v);
		sc_buf_put_double(&b, (double) v);
		noise();
		sc_buf_put_fmt(&b, "%" PRIu64 "-%.*s", v, (int) RB(200), t);
		noise();
		sc_buf_put_blob(&b, t, RB(200));
	}
	for (uint64_t i = 0; i < n; i++) {
		D(sc_buf_get_64(&b));
		D((uint64_t) (sc_buf_get_double(&b) / 4));
		const char *s = sc_buf_get_str(&b);
		noise();
		DS(s);
		uint32_t l = sc_buf_get_32(&b);
		void *p = sc_buf_get_blob(&b, l);
		c->d = vt_hash_bytes(c->d, p, l);
	}
	D(sc_buf_valid(&b));
	D(sc_buf_get_8(&b));
	D(sc_buf_valid(&b));
	sc_buf_term(&b);
}
static void w_str(struct ctx *c)
{
	char t[120], *save = NULL, *s;
	const char *tok;
	for (int i = 0; i < 119; i++) {
		t[i] = "ab,-c"[RB(5)];
	}
	t[RB(119)] = 0;
	t[119] = 0;
	s = sc_str_create_fmt("%s/%d", t, (int) RB(1000));
	noise();
	D(sc_str_append(&s, t));
	D(sc_str_replace(&s, "ab", "xyz"));
	noise();
	D(sc_str_trim(&s, "a,"));
	D(sc_str_set_fmt(&s, "%s%s%s", s, t, s));
	while ((tok = sc_str_token_begin(s, &save, ",-")) != NULL) {
		noise();
		DS(tok);
	}
	sc_str_token_end(s, &save);
	D(sc_str_substring(&s, 1, (uint32_t) sc_str_len(s)));
	DS(s);
	sc_str_destroy(&s);
}
static void fired(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	struct ctx *c = arg;
	(void) data;
	noise();
	D(timeout * 31 + type);
}
static void w_timer(struct ctx *c)
{
	struct sc_timer t;
	uint64_t now = RB(1000), id[64];
	sc_timer_init(&t, now);
	for (int i = 0; i < 64; i++) {
		id[i] = sc_timer_add(&t, RB(500), (uint64_t) i, NULL);
		if (RB(4) == 0) {
			sc_timer_cancel(&t, &id[RB((uint64_t) i + 1)]);
			id[i] = SC_TIMER_INVALID;
		}
		if (RB(4) == 0) {
			now += RB(60);
			memset(id, 0xff, sizeof(id)); /* a fired timer must not be cancelled */
			sc_timer_timeout(&t, now, c, fired);
		}
	}
	for (int i = 0; i < 3; i++) {
		now += 10000;
		D(sc_timer_timeout(&t, now, c, fired));
	}
	sc_timer_term(&t);
}
static void w_uri(struct ctx *c)
{
	char t[300];
	snprintf(t, sizeof(t), "s%" PRIu64 "://u%" PRIu64 "@h%" PRIu64 ".x:%" PRIu64 "/p/%" PRIx64 "?q=%" PRIx64 "#f%" PRIx64, RB(100), RB(100), RB(1000000), RB(70000),
		 vt_rnd_r(&c->r), vt_rnd_r(&c->r), RB(9));
	struct sc_uri *u = sc_uri_create(t);
	D(u != NULL);
	if (u) {
		noise();
		DS(u->str);
		DS(u->scheme);
		DS(u->userinfo);
		DS(u->host);
		DS(u->port);
		noise();
		DS(u->path);
		DS(u->query);
		DS(u->fragment);
		sc_uri_destroy(u);
	}
}
static int item(void *arg, int line, const char *section, const char *key, const char *value)
{
	struct ctx *c = arg;
	noise();
	D(line);
	DS(section);
	DS(key);
	noise();
	DS(value);
	return line > 30;
}
static void w_ini(struct ctx *c)
{
	char t[4000];
	size_t n = 0;
	t[0] = 0;
	for (uint64_t i = RB(40); i > 0; i--) {
		n += (size_t) snprintf(t + n, sizeof(t) - n, RB(5) ? "k%" PRIu64 " = v%" PRIu64 "%s\n" : RB(2) ? "[s%" PRIu64 ".%" PRIu64 "]%s\n" : "  more%" PRIu64 " text%" PRIu64 "%s\n",
				       RB(100), RB(1u << 30), RB(4) ? "" : " ; comment");
	}
	D(sc_ini_parse_string(c, item, t));
	if (RB(3) == 0) {
		char name[300];
		snprintf(name, sizeof(name), "%s/ini.%d", vt_tmpdir, c->tid);
		FILE *f = fopen(name, "w");
		fputs(t, f);
		fclose(f);
		D(sc_ini_parse_file(c, item, name));
		unlink(name);
	}
}
static void w_crc(struct ctx *c)
{
	unsigned char t[7000];
	size_t n = RB(3) ? RB(300) : RB(sizeof(t));
	for (size_t i = 0; i < n; i++) {
		t[i] = (unsigned char) vt_rnd_r(&c->r);
	}
	D(sc_crc32((uint32_t) RB(1000), t, n));
}
static void w_sc(struct ctx *c)
{
	char t[64];
	unsigned char seed[256], out[100];
	struct sc_rand rnd;
	for (int i = 0; i < 256; i++) {
		seed[i] = (unsigned char) vt_rnd_r(&c->r);
	}
	sc_rand_init(&rnd, seed);
	for (int i = 0; i < 4; i++) {
		noise();
		sc_rand_read(&rnd, out, sizeof(out));
		c->d = vt_hash_bytes(c->d, out, sizeof(out));
	}
	uint64_t v = vt_rnd_r(&c->r) >> RB(60);
	DS(sc_bytes_to_size(t, sizeof(t), v));
	noise();
	D(sc_size_to_bytes(t));
	D(sc_is_pow2(v));
	D(sc_to_pow2(v >> 2));
}
static void w_option(struct ctx *c)
{
	static const char *const args[] = {"-a", "-b=12", "--alpha", "--beta=xyz", "--beta", "-z", "word", "-", "--", "-b"};
	struct sc_option_item items[] = {{'a', "alpha"}, {'b', "beta"}};
	char *argv[12], copy[12][16], *value;
	int n = 1 + (int) RB(10);
	for (int i = 0; i < n; i++) {
		strcpy(copy[i], args[RB(10)]);
		argv[i] = copy[i];
	}
	argv[n] = NULL;
	struct sc_option o = {.options = items, .count = 2, .argv = argv};
	for (int i = 1; i < n; i++) {
		D(sc_option_at(&o, i, &value));
		noise();
		DS(value);
	}
}
static void w_mmap(struct ctx *c)
{
	char name[300];
	struct sc_mmap m;
	snprintf(name, sizeof(name), "%s/map.%d", vt_tmpdir, c->tid);
	D(sc_mmap_init(&m, name, O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, 0, 4096 * (1 + RB(3))));
	memset(m.ptr, (int) RB(256), m.len);
	D(m.len);
	D(sc_mmap_msync(&m, 0, m.len));
	noise();
	D(m.ptr[RB(m.len)]);
	D(sc_mmap_term(&m));
	unlink(name);
	D(sc_mmap_init(&m, RB(2) ? "/nonexistent/x" : "/", O_RDWR, PROT_READ, MAP_SHARED, 0, 10));
	noise();
	DS(sc_mmap_err(&m));
	sc_mmap_term(&m);
}
static void w_pipe(struct ctx *c)
{
	struct sc_sock_pipe p[3];
	struct sc_sock_poll po;
	struct sc_sock_fd bad = {.fd = -1};
	char t[64], u[64];
	uint64_t seen = 0;
	if (sc_sock_poll_init(&po) != 0) {
		D(1);
		return;
	}
	for (int i = 0; i < 3; i++) {
		D(sc_sock_pipe_init(&p[i], i));
		D(sc_sock_poll_add(&po, &p[i].fdt, SC_SOCK_READ, &p[i]));
	}
	/* the text of a poll error is the thread's own */
	if (RB(2)) {
		D(sc_sock_poll_add(&po, &bad, SC_SOCK_READ, NULL));
	} else {
		bad.fd = p[0].fds[1]; /* not registered */
		bad.op = SC_SOCK_WRITE;
		D(sc_sock_poll_del(&po, &bad, SC_SOCK_WRITE, NULL));
	}
	noise();
	DS(sc_sock_poll_err(&po));
	for (int k = 0; k < 6; k++) {
		int i = (int) RB(3), n;
		size_t l = 1 + RB(63);
		memset(t, (int) RB(256), sizeof(t));
		D(sc_sock_pipe_write(&p[i], t, (unsigned) l));
		noise();
		n = sc_sock_poll_wait(&po, 0);
		D(n);
		for (int e = 0; e < n; e++) {
			struct sc_sock_pipe *q = sc_sock_poll_data(&po, e);
			D(q - p);
			D(sc_sock_poll_event(&po, e));
			D(sc_sock_pipe_read(q, u, sizeof(u)));
			seen = vt_hash_bytes(seen, u, l);
		}
	}
	D(seen);
	D(sc_sock_poll_term(&po));
	for (int i = 0; i < 3; i++) {
		D(sc_sock_pipe_term(&p[i]));
	}
}
static void w_sock(struct ctx *c)
{
	struct sc_sock l, a, b;
	char name[200], t[100], u[100];
	size_t n = 1 + RB(99);
	snprintf(name, sizeof(name), "%s/so.%d", vt_tmpdir, c->tid);
	unlink(name);
	sc_sock_init(&l, 0, true, SC_SOCK_UNIX);
	sc_sock_init(&a, 0, true, SC_SOCK_UNIX);
	sc_sock_init(&b, 0, true, SC_SOCK_UNIX);
	/* failures with different reasons */
	D(sc_sock_connect(&a, RB(2) ? "/nonexistent/x" : "/", "0", NULL, NULL));
	noise();
	DS(sc_sock_error(&a));
	D(sc_sock_listen(&l, name, "0"));
	D(sc_sock_connect(&a, name, "0", NULL, NULL));
	D(sc_sock_accept(&l, &b));
	for (size_t i = 0; i < n; i++) {
		t[i] = (char) vt_rnd_r(&c->r);
	}
	for (int k = 0; k < 3; k++) {
		D(sc_sock_send(&a, t, (int) n, 0));
		noise();
		D(sc_sock_recv(&b, u, sizeof(u), 0));
		c->d = vt_hash_bytes(c->d, u, n);
		D(sc_sock_send(&b, u, (int) n / 2, 0));
		if (n / 2 > 0) {
			D(sc_sock_recv(&a, u, sizeof(u), 0));
		}
	}
	/* names differ per thread, but each describes the thread's own */
	sc_sock_local_str(&l, t, sizeof(t));
	D(strstr(t, strrchr(name, '/')) != NULL);
	D(sc_sock_term(&a));
	D(sc_sock_recv(&b, u, sizeof(u), 0));
	noise();
	DS(sc_sock_error(&b));
	D(sc_sock_term(&b));
	D(sc_sock_term(&l));
	unlink(name);
}
static void *ret_arg(void *p)
{
	noise();
	return p;
}
static void *sig(void *p)
{
	sc_cond_signal(p, (char *) p + 1);
	return NULL;
}
static void w_sync(struct ctx *c)
{
	struct sc_mutex m;
	struct sc_cond cd;
	struct sc_thread th;
	void *ret = NULL;
	uint64_t a, b;
	D(sc_mutex_init(&m));
	D(sc_cond_init(&cd));
	sc_thread_init(&th);
	sc_mutex_lock(&m);
	D(sc_thread_start(&th, RB(2) ? ret_arg : sig, &cd));
	noise();
	sc_mutex_unlock(&m);
	D(sc_thread_join(&th, &ret));
	D(ret == NULL || ret == &cd);
	sc_cond_signal(&cd, &m);
	D(sc_cond_wait(&cd) == &m);
	D(sc_thread_term(&th));
	D(sc_cond_term(&cd));
	D(sc_mutex_term(&m));
	a = sc_time_mono_ns();
	D(sc_time_sleep(0));
	b = sc_time_mono_ns();
	D(b >= a);
	D(sc_time_ms() > 0);
}

static const struct {
	const char *name;
	void (*fn)(struct ctx *);
} work[] = {{"array", w_array}, {"queue", w_queue}, {"heap", w_heap}, {"list", w_list}, {"map", w_map}, {"buffer", w_buf}, {"string", w_str},
	    {"timer", w_timer}, {"uri", w_uri}, {"ini", w_ini}, {"crc32", w_crc}, {"sc", w_sc}, {"option", w_option}, {"mmap", w_mmap},
	    {"pipe-poll", w_pipe}, {"socket", w_sock}, {"sync", w_sync}};
#define NW ((int) (sizeof(work) / sizeof(work[0])))

#ifndef STATE
#define MAXT 6
#define MAXJ 12
struct thr {
	pthread_t t;
	int tid, n;
	int w[MAXJ];
	uint64_t seed[MAXJ], alone[MAXJ], got[MAXJ], nseed;
};
static pthread_barrier_t bar;

static uint64_t one(int w, uint64_t seed, int tid)
{
	struct ctx c = {.r = {seed}, .tid = tid, .d = 1};
	work[w].fn(&c);
	return c.d;
}
static void *run(void *p)
{
	struct thr *t = p;
	tl_r.s = t->nseed;
	noisy = true;
	pthread_barrier_wait(&bar);
	for (int j = 0; j < t->n; j++) {
		t->got[j] = one(t->w[j], t->seed[j], t->tid);
	}
	noisy = false;
	return NULL;
}

void vt_setup(void)
{
	sc_crc32_init();
}

void vt_case(uint64_t n)
{
	static struct thr t[MAXT];
	int nt = 2 + (int) vt_below(MAXT - 1), same = vt_chance(1, 2) ? (int) vt_below(NW) : -1;
	uint64_t h = 0;
	(void) n;
	noise_level = (int) vt_below(4);
	for (int i = 0; i < nt; i++) {
		t[i].tid = i;
		t[i].n = 3 + (int) vt_below(MAXJ - 3);
		t[i].nseed = vt_rnd();
		for (int j = 0; j < t[i].n; j++) {
			t[i].w[j] = same >= 0 && vt_chance(7, 8) ? same : (int) vt_below(NW);
			t[i].seed[j] = vt_rnd();
			t[i].alone[j] = one(t[i].w[j], t[i].seed[j], i);
			h = vt_hash(h, (uint64_t) t[i].w[j]);
			vt_log("thread %d: %s", i, work[t[i].w[j]].name);
		}
	}
	pthread_barrier_init(&bar, NULL, (unsigned) nt);
	for (int i = 0; i < nt; i++) {
		if (pthread_create(&t[i].t, NULL, run, &t[i]) != 0) {
			vt_die("pthread_create");
		}
	}
	for (int i = 0; i < nt; i++) {
		pthread_join(t[i].t, NULL);
	}
	pthread_barrier_destroy(&bar);
	for (int i = 0; i < nt; i++) {
		for (int j = 0; j < t[i].n; j++) {
			VT_CHECK(t[i].got[j] == t[i].alone[j], "thread %d: its own %s gave other results than when used alone", i, work[t[i].w[j]].name);
			vt_class(work[t[i].w[j]].name);
		}
	}
	vt_class(same >= 0 ? "same-kind" : "mixed-kinds");
	vt_state(h);
	if (vt_want_sample()) {
		vt_sample("%d threads, %s, all results as alone", nt, same >= 0 ? work[same].name : "mixed kinds");
	}
}
#endif
