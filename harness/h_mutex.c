/* M01: threads contending for several mutexes. */
#include "vt.h"
#include "sc_mutex.h"
#define STORMY
#include "sync.inc"

int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	noise();
	int rc = __real_pthread_mutex_lock(m);
	noise();
	return rc;
}
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	noise();
	int rc = __real_pthread_mutex_unlock(m);
	noise();
	return rc;
}

#define NM 3
static struct sc_mutex *mx[NM];
static int nm;
static int inside[NM];                  /* relaxed: orders nothing */
static uint64_t plain[NM], contended;   /* plain[]: protected by the mutex alone */
static uint64_t last[NM][2];
static int go;

struct actor {
	pthread_t t;
	vt_rng r;
	int n;
	uint64_t did[NM];
};

static void lock(int k)
{
	if (__atomic_load_n(&inside[k], __ATOMIC_RELAXED)) {
		__atomic_add_fetch(&contended, 1, __ATOMIC_RELAXED);
	}
	noisy = true;
	sc_mutex_lock(mx[k]);
	noisy = false;
	int was = __atomic_fetch_add(&inside[k], 1, __ATOMIC_RELAXED);
	vt_event(1);
	if (was != 0) {
		vt_fail("%d other threads are inside mutex %d", was, k);
	}
}
static void unlock(int k)
{
	__atomic_fetch_sub(&inside[k], 1, __ATOMIC_RELAXED);
	noisy = true;
	sc_mutex_unlock(mx[k]);
	noisy = false;
}
static void body(struct actor *a, int k)
{
	uint64_t v = plain[k];
	if (last[k][0] != v || last[k][1] != ~v) {
		vt_fail("what the last thread inside mutex %d wrote is not visible: %" PRIu64 ", %" PRIu64 " and %" PRIu64, k, v, last[k][0], ~last[k][1]);
	}
	if (vt_below_r(&tl_r, 6) == 0) {
		if (vt_below_r(&tl_r, 2)) {
			sched_yield();
		} else {
			delay_us((unsigned) vt_below_r(&tl_r, 40));
		}
	}
	plain[k] = v + 1;
	last[k][0] = v + 1;
	last[k][1] = ~(v + 1);
	a->did[k]++;
}
static void *act(void *p)
{
	struct actor *a = p;
	tl_r = a->r;
	while (!__atomic_load_n(&go, __ATOMIC_RELAXED)) {}
	for (int i = 0; i < a->n; i++) {
		int k = (int) vt_below_r(&tl_r, (uint64_t) nm);
		lock(k);
		body(a, k);
		/* separate mutexes nest (always upwards, so no deadlock is ours) */
		if (k + 1 < nm && vt_below_r(&tl_r, 3) == 0) {
			lock(k + 1);
			body(a, k + 1);
			if (vt_below_r(&tl_r, 2)) {
				unlock(k + 1);
				unlock(k);
			} else {
				unlock(k);
				unlock(k + 1);
			}
		} else {
			unlock(k);
		}
	}
	return NULL;
}

/* a held mutex keeps another thread out until it is released, other mutexes do not */
static int entered;
static void *prober(void *p)
{
	struct actor *a = p;
	tl_r = a->r;
	noisy = true;
	sc_mutex_lock(mx[1]); /* free: must not wait for mutex 0 */
	sc_mutex_unlock(mx[1]);
	noisy = false;
	__atomic_store_n(&entered, 1, __ATOMIC_RELAXED);
	lock(0);
	__atomic_store_n(&entered, 2, __ATOMIC_RELAXED);
	unlock(0);
	return NULL;
}

static void term_all(void)
{
	for (int i = 0; i < nm; i++) {
		noisy = true;
		int rc = sc_mutex_term(mx[i]);
		noisy = false;
		VT_CHECK(rc == 0, "term returns %d", rc);
		vt_free(mx[i]);
	}
	VT_CHECK(o_mtx.n == 0, "term leaves %d mutexes", o_mtx.n);
}

/* several threads, each with a mutex of its own, at once */
static void one_mutex(struct stormer *s, int round)
{
	struct sc_mutex m;
	memset(&m, 0x5a, sizeof(m));
	noisy = true;
	int rc = sc_mutex_init(&m);
	if (rc == 0) {
		sc_mutex_lock(&m);
		sc_mutex_unlock(&m);
		rc = sc_mutex_term(&m);
	}
	noisy = false;
	vt_event(1);
	if (rc != 0) {
		vt_fail("thread %d, mutex %d: %d, while other threads create theirs", s->id, round, rc);
	}
}

void vt_case(uint64_t cn)
{
	struct actor a[8];
	int na = (int) vt_range(2, vt_chance(1, 4) ? 8 : 4), total = 0;
	uint64_t h = (uint64_t) na;
	noise_level = (int) vt_below(4);
	tl_r.s = vt_rnd();
	pokes_on();
	nm = (int) vt_range(1, NM);
	if (vt_chance(1, 12)) {
		vt_state(run_storm(one_mutex));
		return;
	}
	bool probe = vt_chance(1, 8) || cn % 1500 == 40;
	nm = probe && nm < 2 ? 2 : nm;
	for (int i = 0; i < nm; i++) {
		int rc, round = vt_chance(1, 3) ? 2 : 1;
		mx[i] = vt_malloc(sizeof(*mx[i]));
		memset(mx[i], (int) vt_rnd() & 0xff, sizeof(*mx[i]));
		if (vt_chance(1, 4)) {
			bool at = vt_chance(1, 2);
			*(at ? &f_mattr : &f_mtx) = vt_chance(1, 2) ? ENOMEM : EAGAIN;
			noisy = true;
			rc = sc_mutex_init(mx[i]);
			noisy = false;
			f_mattr = f_mtx = 0;
			if (rc == 0) { /* did not need what failed */
				VT_CHECK(at && o_mtx.n == i + 1, "a creation that was refused returns success");
				noisy = true;
				sc_mutex_term(mx[i]);
				noisy = false;
			} else {
				VT_CHECK(rc == -1, "a failing init returns %d", rc);
				vt_class(at ? "init.refused-attr" : "init.refused");
			}
			VT_CHECK(o_mtx.n == i && o_mattr.n == 0, "a failing init leaves %d attributes", o_mattr.n);
		}
		while (round-- > 0) {
			noisy = true;
			rc = sc_mutex_init(mx[i]);
			noisy = false;
			VT_CHECK(rc == 0, "init fails with %d", rc);
			VT_CHECK(o_mattr.n == 0, "init leaves an attribute");
			if (round > 0) {
				noisy = true;
				sc_mutex_lock(mx[i]);
				sc_mutex_unlock(mx[i]);
				f_mtxd = vt_chance(1, 4) ? EBUSY : 0;
				rc = sc_mutex_term(mx[i]);
				noisy = false;
				VT_CHECK(rc == (f_mtxd ? -1 : 0), "term returns %d", rc);
				f_mtxd = 0;
				vt_class("created-again");
			}
		}
		inside[i] = 0;
		plain[i] = 0;
		last[i][0] = 0;
		last[i][1] = ~(uint64_t) 0;
	}
	go = 0;
	memset(a, 0, sizeof(a));
	if (probe) {
		a[0].r.s = vt_rnd();
		entered = 0;
		warp = cn % 1500 != 40 && vt_chance(1, 2);
		if (warp) {
			vt_class("held-past-any-deadline");
		}
		lock(0);
		if (pthread_create(&a[0].t, NULL, prober, &a[0])) {
			vt_die("pthread_create");
		}
		uint64_t t0 = vt_now_us();
		while (__atomic_load_n(&entered, __ATOMIC_RELAXED) == 0) {
			if (vt_now_us() - t0 > 20000000) {
				vt_fail("holding one mutex blocks another for 20 s");
			}
			delay_us(10);
		}
		bool lasting = cn % 1500 == 40;
		if (lasting) {
			delay_us(1300000);
			vt_class("held-over-a-second");
		}
		for (int i = (int) vt_below(4); i > 0; i--) {
			poke(a[0].t);
			delay_us((unsigned) vt_below(100));
		}
		delay_us(300 + (unsigned) vt_below(1000));
		VT_CHECK(__atomic_load_n(&entered, __ATOMIC_RELAXED) == 1, "another thread enters a held mutex");
		unlock(0);
		pthread_join(a[0].t, NULL);
		__atomic_store_n(&warp, 0, __ATOMIC_RELAXED);
		VT_CHECK(entered == 2, "the waiting thread never entered");
		vt_class("held-mutex-blocks");
		vt_state(vt_hash(h, vt_rnd()));
		term_all();
		return;
	}
	for (int i = 0; i < na; i++) {
		a[i].n = (int) vt_range(1, 60);
		a[i].r.s = vt_rnd();
		h = vt_hash(h, (uint64_t) a[i].n);
		if (pthread_create(&a[i].t, NULL, act, &a[i])) {
			vt_die("pthread_create");
		}
	}
	__atomic_store_n(&go, 1, __ATOMIC_RELAXED);
	for (int i = 0; i < na; i++) {
		pthread_join(a[i].t, NULL);
		total += a[i].n;
	}
	for (int k = 0; k < nm; k++) {
		uint64_t want = 0;
		for (int i = 0; i < na; i++) {
			want += a[i].did[k];
		}
		VT_CHECK(plain[k] == want, "%" PRIu64 " updates inside mutex %d, %" PRIu64 " were made", plain[k], k, want);
		h = vt_hash(h, want);
	}
	if (contended) {
		vt_class_n("contended", contended);
		h = vt_hash(h, contended);
		contended = 0;
	}
	vt_state(h);
	if (vt_want_sample()) {
		vt_sample("%d threads, %d mutexes, %d critical sections, none overlapping, none lost", na, nm, total);
	}
	term_all();
}
