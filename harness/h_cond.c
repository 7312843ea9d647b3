/* C01: threads signalling and waiting on conditions; every history is checked
 * to be a history of a one-place slot, with spurious wake-ups and delays. */
#include "vt.h"
#include "sc_cond.h"
#define STORMY
#include "sync.inc"

static int spurious; /* one in so many waits */

/* While `oneshot` is set the waiter frees the condition as soon as its wait has
 * returned: whatever is passed to a primitive is looked at plainly, so that the
 * memory checker (ASan) sees a signaller that comes too late. */
static int oneshot;
static void looked(const void *p)
{
	if (noisy && __atomic_load_n(&oneshot, __ATOMIC_RELAXED)) {
#if !defined(__SANITIZE_THREAD__)
		(void) *(const volatile unsigned char *) p;
#else
		(void) p; /* its own interceptors look */
#endif
	}
}

int __real_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a);
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	if (noisy && f_cond) {
		return f_cond;
	}
	if (a) {
		touched(a);
	}
	touched(c);
	int rc = __real_pthread_cond_init(c, a);
	if (ACCOUNTED && rc == 0) {
		o_add(&o_cond, c);
	}
	return rc;
}
int __real_pthread_cond_destroy(pthread_cond_t *c);
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	if (ACCOUNTED && !o_del(&o_cond, c)) {
		vt_fail("a condition is destroyed that is not initialised");
	}
	int rc = __real_pthread_cond_destroy(c);
	return noisy && f_condd ? f_condd : rc;
}
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	noise();
	looked(m);
	int rc = __real_pthread_mutex_lock(m);
	noise();
	return rc;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	noise();
	looked(m);
	int rc = __real_pthread_mutex_unlock(m);
	noise();
	return rc;
}
int __real_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
static uint64_t n_spurious, n_blocked;
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (noisy && spurious && vt_below_r(&tl_r, (uint64_t) spurious) == 0) {
		/* POSIX allows a wait to return without a signal */
		__atomic_add_fetch(&n_spurious, 1, __ATOMIC_RELAXED);
		__real_pthread_mutex_unlock(m);
		noise();
		__real_pthread_mutex_lock(m);
		return 0;
	}
	__atomic_add_fetch(&n_blocked, 1, __ATOMIC_RELAXED);
	noise();
	int rc = __real_pthread_cond_wait(c, m);
	noise();
	return rc;
}
int __real_pthread_cond_signal(pthread_cond_t *c);
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
	noise();
	looked(c);
	int rc = __real_pthread_cond_signal(c);
	noise();
	return rc;
}

/* ---------------------------------------------------------------- history */
struct op {
	bool wait, flush;
	uint64_t value, s, e; /* e == 0: not finished */
};
#define MAXOPS 60
struct payload {
	uint64_t value, sum; /* written without any synchronisation but the condition's */
};
static struct payload pay[4096];
static uint64_t npay;
static struct sc_cond cond;

struct actor {
	pthread_t t;
	vt_rng r;
	bool waiter;
	int n;
	struct op *ops[MAXOPS];
	bool nul; /* sends NULL values too */
	int done;
};
static struct op ops[MAXOPS];
static int nops;
static int go, finished;

static void do_signal(struct op *o, bool nul)
{
	uint64_t k = __atomic_fetch_add(&npay, 1, __ATOMIC_RELAXED);
	struct payload *p = nul ? NULL : &pay[k];
	if (p) {
		p->value = k + 1;
		p->sum = (k + 1) * 31;
	}
	o->value = nul ? 0 : k + 1;
	__atomic_store_n(&o->s, stamp(), __ATOMIC_RELAXED);
	noisy = true;
	sc_cond_signal(&cond, p);
	noisy = false;
	__atomic_store_n(&o->e, stamp(), __ATOMIC_RELAXED);
}
static void do_wait(struct op *o)
{
	o->wait = true;
	__atomic_store_n(&o->s, stamp(), __ATOMIC_RELAXED);
	noisy = true;
	struct payload *p = sc_cond_wait(&cond);
	noisy = false;
	uint64_t e = stamp();
	if (p != NULL && (p < pay || p >= pay + 4096)) {
		vt_fail("a wait returns %p, which was never sent", (void *) p);
	}
	if (p) {
		if (p->sum != p->value * 31 || p->value == 0) {
			vt_fail("the waiter sees value %" PRIu64 " with sum %" PRIu64, p->value, p->sum);
		}
		o->value = p->value;
	}
	__atomic_store_n(&o->e, e, __ATOMIC_RELAXED);
}

static void *act(void *v)
{
	struct actor *a = v;
	tl_r = a->r;
	while (!__atomic_load_n(&go, __ATOMIC_RELAXED)) {}
	for (int i = 0; i < a->n; i++) {
		if (a->waiter) {
			do_wait(a->ops[i]);
		} else {
			do_signal(a->ops[i], a->nul && vt_below_r(&tl_r, 3) == 0);
		}
		if (vt_below_r(&tl_r, 4) == 0) {
			delay_us((unsigned) vt_below_r(&tl_r, 80));
		}
		__atomic_add_fetch(&a->done, 1, __ATOMIC_RELAXED);
	}
	__atomic_add_fetch(&finished, 1, __ATOMIC_RELAXED);
	return NULL;
}

/* Wing-Gong search for an order of a one-place slot. State: the value held. */
#define MEMO (1 << 16)
static uint64_t memo[MEMO][2];
static uint64_t memo_n, steps;
static bool seen(uint64_t mask, uint64_t st)
{
	uint64_t h = vt_hash(vt_hash(1, mask), st) & (MEMO - 1);
	for (;;) {
		if (memo[h][0] == 0) {
			memo[h][0] = mask + 1;
			memo[h][1] = st;
			memo_n++;
			return false;
		}
		if (memo[h][0] == mask + 1 && memo[h][1] == st) {
			return true;
		}
		h = (h + 1) & (MEMO - 1);
	}
}
/* state 0: empty, else value + 1 (value 0 is NULL) */
static int lin(uint64_t mask, uint64_t st, uint64_t full)
{
	if (mask == full) {
		return 1;
	}
	if (memo_n > MEMO / 2 || ++steps > 2000000) {
		return -1;
	}
	if (seen(mask, st)) {
		return 0;
	}
	uint64_t first_end = UINT64_MAX;
	for (int i = 0; i < nops; i++) {
		if (!(mask >> i & 1) && ops[i].e < first_end) {
			first_end = ops[i].e;
		}
	}
	for (int i = 0; i < nops; i++) {
		if ((mask >> i & 1) || ops[i].s > first_end) {
			continue;
		}
		if (ops[i].wait && st != ops[i].value + 1) {
			continue;
		}
		int r = lin(mask | 1ull << i, ops[i].wait ? 0 : ops[i].value + 1, full);
		if (r != 0) {
			return r;
		}
	}
	return 0;
}

static void init_ok(void)
{
	noisy = true;
	int rc = sc_cond_init(&cond);
	noisy = false;
	VT_CHECK(rc == 0, "init fails with %d", rc);
	VT_CHECK(o_mattr.n == 0, "init leaves a mutex attribute");
}

static void faults(void)
{
	int e = vt_chance(1, 2) ? ENOMEM : EAGAIN, which = (int) vt_below(5), rc;
	memset(&cond, 0x5a, sizeof(cond));
	f_mattr = which == 0 ? e : 0;
	f_mtx = which == 1 ? e : 0;
	f_cond = which == 2 ? e : 0;
	errno = 0;
	noisy = true;
	rc = sc_cond_init(&cond);
	int er = errno;
	noisy = false;
	f_mattr = f_mtx = f_cond = 0;
	if (which <= 2) {
		vt_log("init with failure %d -> %d", which, rc);
		/* a build that does not use the failing primitive cannot see the failure */
		if (rc == 0) {
			VT_CHECK(which == 0 && o_mtx.n == 1 && o_cond.n == 1, "an init that was refused (%d) returns success", which);
			noisy = true;
			sc_cond_term(&cond);
			noisy = false;
		} else {
			VT_CHECK(rc < 0, "a failing init returns %d", rc);
			VT_CHECK(er == e, "a failing init leaves errno %d, expected %d", er, e);
			if (vt_chance(1, 2)) { /* terminating what was not initialised does nothing */
				noisy = true;
				rc = sc_cond_term(&cond);
				noisy = false;
				VT_CHECK(rc == 0, "terminating after a failed init returns %d", rc);
			}
			vt_class("init.refused");
		}
	} else {
		VT_CHECK(rc == 0, "init fails with %d", rc);
		f_mtxd = which == 3 ? EBUSY : 0;
		f_condd = which == 4 ? EBUSY : 0;
		noisy = true;
		rc = sc_cond_term(&cond);
		noisy = false;
		f_mtxd = f_condd = 0;
		VT_CHECK(rc < 0, "a failing termination returns %d", rc);
		if (vt_chance(1, 2)) { /* a second one has nothing left to do */
			noisy = true;
			rc = sc_cond_term(&cond);
			noisy = false;
			VT_CHECK(rc == 0, "terminating again after a failed termination returns %d", rc);
		}
		vt_class("term.refused");
	}
	VT_CHECK(o_mattr.n == 0 && o_mtx.n == 0 && o_cond.n == 0, "%d attributes, %d mutexes, %d conditions stay after a failure", o_mattr.n, o_mtx.n, o_cond.n);
}

static void ping_pong(void);

/* several threads, each with a condition of its own, at once */
static void one_cond(struct stormer *s, int round)
{
	struct sc_cond c;
	int x = round;
	void *got = NULL;
	memset(&c, 0x5a, sizeof(c));
	noisy = true;
	int rc = sc_cond_init(&c);
	if (rc == 0) {
		sc_cond_signal(&c, &x);
		got = sc_cond_wait(&c);
		rc = sc_cond_term(&c);
	}
	noisy = false;
	vt_event(2);
	if (rc != 0 || got != &x) {
		vt_fail("thread %d, condition %d: %d, delivers %p for %p, while other threads use theirs", s->id, round, rc, got, (void *) &x);
	}
}

/* a wait lasts until a signal, however long that takes and whatever interrupts */
static struct op patient_op;
static void *patient_fn(void *v)
{
	tl_r = *(vt_rng *) v;
	do_wait(&patient_op);
	return NULL;
}
static void patient(bool lasting)
{
	pthread_t t;
	vt_rng r = {vt_rnd()};
	struct op sig;
	memset(&patient_op, 0, sizeof(patient_op));
	memset(&sig, 0, sizeof(sig));
	init_ok();
	warp = !lasting && vt_chance(1, 2);
	vt_class(lasting ? "waited-over-a-second" : warp ? "waited-past-any-deadline" : "waited");
	if (pthread_create(&t, NULL, patient_fn, &r)) {
		vt_die("pthread_create");
	}
	delay_us(lasting ? 1300000 : 200 + (unsigned) vt_below(800));
	for (int i = (int) vt_below(4); i > 0; i--) {
		poke(t);
		delay_us((unsigned) vt_below(100));
	}
	delay_us(100);
	VT_CHECK(__atomic_load_n(&patient_op.e, __ATOMIC_RELAXED) == 0, "a wait returns without a signal");
	do_signal(&sig, vt_chance(1, 3));
	pthread_join(t, NULL);
	warp = 0;
	VT_CHECK(patient_op.value == sig.value, "the wait returns value %" PRIu64 ", the one sent is %" PRIu64, patient_op.value, sig.value);
	noisy = true;
	int rc = sc_cond_term(&cond);
	noisy = false;
	VT_CHECK(rc == 0, "term returns %d", rc);
	vt_event(2);
	vt_state(vt_hash(9, vt_rnd()));
}

/* a condition that lives no longer than the one wait it is made for */
static struct sc_cond *shot;
static int shots;
static pthread_barrier_t shot_b;
static void *shooter(void *v)
{
	tl_r = *(vt_rng *) v;
	for (int i = 0; i < shots; i++) {
		struct sc_cond *c;
		pthread_barrier_wait(&shot_b);
		c = __atomic_load_n(&shot, __ATOMIC_RELAXED);
		if (vt_below_r(&tl_r, 2) == 0) {
			delay_us((unsigned) vt_below_r(&tl_r, 80));
		}
		noisy = true;
		sc_cond_signal(c, &shots);
		noisy = false;
	}
	return NULL;
}
static void one_shots(void)
{
	pthread_t t;
	vt_rng r = {vt_rnd()};
	uint64_t h = 6;
	shots = (int) vt_range(1, 12);
	h = vt_hash(h, r.s);
	pthread_barrier_init(&shot_b, NULL, 2);
	__atomic_store_n(&oneshot, 1, __ATOMIC_RELAXED);
	if (pthread_create(&t, NULL, shooter, &r)) {
		vt_die("pthread_create");
	}
	for (int i = 0; i < shots; i++) {
		struct sc_cond *c = vt_malloc(sizeof(*c));
		noisy = true;
		int rc = sc_cond_init(c);
		noisy = false;
		VT_CHECK(rc == 0, "init fails");
		__atomic_store_n(&shot, c, __ATOMIC_RELAXED);
		pthread_barrier_wait(&shot_b);
		noisy = true;
		void *p = sc_cond_wait(c);
		rc = sc_cond_term(c);
		noisy = false;
		VT_CHECK(p == &shots, "the waiter gets %p", p);
		VT_CHECK(rc == 0, "a condition cannot be terminated by the waiter that got the value");
		memset(c, 0xa5, sizeof(*c));
		vt_free(c);
	}
	pthread_join(t, NULL);
	__atomic_store_n(&oneshot, 0, __ATOMIC_RELAXED);
	pthread_barrier_destroy(&shot_b);
	VT_CHECK(o_mtx.n == 0 && o_cond.n == 0, "term leaves %d mutexes and %d conditions", o_mtx.n, o_cond.n);
	vt_class("terminated-by-the-waiter");
	vt_state(h);
}

void vt_case(uint64_t cn)
{
	struct actor a[8];
	struct op flushed[1];
	int na, total_w = 0, nw = 0;
	uint64_t h = 0;
	(void) flushed;
	pokes_on();
	noise_level = (int) vt_below(4);
	tl_r.s = vt_rnd();
	spurious = vt_chance(1, 3) ? 0 : 1 + (int) vt_below(4);
	if (spurious == 1 && vt_chance(1, 2)) {
		spurious = 2;
	}
	npay = 0;
	if (vt_chance(1, 5)) {
		faults();
	}
	if (cn % 2000 == 40 || vt_chance(1, 16)) {
		patient(cn % 2000 == 40);
		return;
	}
	if (vt_chance(1, 14)) {
		vt_state(run_storm(one_cond));
		return;
	}
	if (vt_chance(1, 10)) {
		one_shots();
		return;
	}
	if (vt_chance(1, 4)) {
		ping_pong();
		return;
	}
	init_ok();
	memset(ops, 0, sizeof(ops));
	memset(a, 0, sizeof(a));
	nops = 0;
	go = finished = 0;
	na = (int) vt_range(2, vt_chance(1, 4) ? 7 : 4);
	for (int i = 0; i < na; i++) {
		a[i].waiter = i == 0 || (i > 1 && vt_chance(1, 2));
		a[i].n = (int) vt_range(1, 24 / na);
		a[i].r.s = vt_rnd();
		a[i].nul = vt_chance(1, 6);
		for (int k = 0; k < a[i].n; k++) {
			ops[nops].wait = a[i].waiter;
			a[i].ops[k] = &ops[nops++];
		}
		total_w += a[i].waiter ? a[i].n : 0;
		nw += a[i].waiter;
		h = vt_hash(h, (uint64_t) a[i].n * 2 + a[i].waiter);
	}
	for (int i = 0; i < na; i++) {
		if (pthread_create(&a[i].t, NULL, act, &a[i])) {
			vt_die("pthread_create");
		}
	}
	if (vt_chance(1, 2)) {
		__atomic_store_n(&go, 1, __ATOMIC_RELAXED);
	} else { /* the first comes alone */
		delay_us(100);
		__atomic_store_n(&go, 1, __ATOMIC_RELAXED);
	}
	/* Overwritten signals leave waits without one: send more, one at a time, each
	 * only once everything before it was consumed, until all waits have returned. */
	for (;;) {
		int sig_left = 0, w_done = 0;
		for (int i = 0; i < na; i++) {
			int d = __atomic_load_n(&a[i].done, __ATOMIC_RELAXED);
			if (a[i].waiter) {
				w_done += d;
			} else {
				sig_left += a[i].n - d;
			}
		}
		if (sig_left == 0) {
			if (w_done == total_w) {
				break;
			}
			/* all signallers are done: a pending value is taken, or none is pending */
			int before = w_done;
			uint64_t t0 = vt_now_us();
			if (nops >= MAXOPS) {
				vt_fail("%d waits returned although %d signals were sent", w_done, nops - total_w);
			}
			struct op *o = &ops[nops++];
			o->flush = true;
			do_signal(o, vt_chance(1, 3)); /* without a value: wakes as any other */
			while (w_done == before) {
				if (vt_now_us() - t0 > 15000000) {
					vt_fail("%d waits are blocked for 15 s although a signal is pending", total_w - w_done);
				}
				delay_us(20);
				w_done = 0;
				for (int i = 0; i < na; i++) {
					w_done += a[i].waiter ? __atomic_load_n(&a[i].done, __ATOMIC_RELAXED) : 0;
				}
			}
			vt_class("flushed");
		} else {
			delay_us(20);
		}
	}
	for (int i = 0; i < na; i++) {
		pthread_join(a[i].t, NULL);
	}
	for (int i = 0; i < nops; i++) {
		vt_log("%s value %" PRIu64 " from %" PRIu64 " to %" PRIu64, ops[i].wait ? "wait  " : "signal", ops[i].value, ops[i].s, ops[i].e);
		h = vt_hash(vt_hash(h, ops[i].value), (ops[i].s - ops[0].s) * 1000 + ops[i].e - ops[i].s);
	}
	memset(memo, 0, sizeof(memo));
	memo_n = steps = 0;
	int r = lin(0, 0, (1ull << nops) - 1);
	vt_event((uint64_t) nops);
	if (r == 0) {
		vt_fail("no order of the %d signals and waits explains the values received", nops);
	}
	vt_class(r < 0 ? "search-given-up" : "history-explained");
	if (nw > 1) {
		vt_class("several-waiters");
	}
	if (n_spurious) {
		vt_class_n("spurious-wakeups", n_spurious);
	}
	if (n_blocked) {
		vt_class_n("blocked-waits", n_blocked);
	}
	n_spurious = n_blocked = 0;
	noisy = true;
	int rc = sc_cond_term(&cond), rc2 = sc_cond_term(&cond);
	noisy = false;
	VT_CHECK(rc == 0 && rc2 == 0, "term returns %d, then %d", rc, rc2);
	VT_CHECK(o_mtx.n == 0 && o_cond.n == 0, "term leaves %d mutexes and %d conditions", o_mtx.n, o_cond.n);
	vt_state(h);
	if (vt_want_sample()) {
		vt_sample("%d threads (%d waiting), %d signals and waits, explained as a one-place slot", na, nw, nops);
	}
}

/* strict hand-over through two conditions: no value may be lost or repeated */
static struct sc_cond back;
static int rounds;
static uint64_t box; /* protected by the hand-over alone */
static void *ponger(void *v)
{
	tl_r = *(vt_rng *) v;
	for (int i = 1; i <= rounds; i++) {
		noisy = true;
		uint64_t *p = sc_cond_wait(&cond);
		noisy = false;
		if (p != &box || *p != (uint64_t) i) {
			vt_fail("round %d: the waiter gets %" PRIu64, i, p == &box ? *p : 0);
		}
		*p = (uint64_t) i * 1000;
		noisy = true;
		sc_cond_signal(&back, &box);
		noisy = false;
	}
	return NULL;
}
static void ping_pong(void)
{
	pthread_t t;
	vt_rng r = {vt_rnd()};
	rounds = (int) vt_range(1, 60);
	init_ok();
	noisy = true;
	int rc = sc_cond_init(&back);
	noisy = false;
	VT_CHECK(rc == 0, "init fails");
	if (pthread_create(&t, NULL, ponger, &r)) {
		vt_die("pthread_create");
	}
	for (int i = 1; i <= rounds; i++) {
		box = (uint64_t) i;
		noisy = true;
		sc_cond_signal(&cond, &box);
		uint64_t *p = sc_cond_wait(&back);
		noisy = false;
		VT_CHECK(p == &box && *p == (uint64_t) i * 1000, "round %d: the answer is %" PRIu64, i, *p);
	}
	pthread_join(t, NULL);
	noisy = true;
	rc = sc_cond_term(&cond) | sc_cond_term(&back);
	noisy = false;
	VT_CHECK(rc == 0, "term fails");
	VT_CHECK(o_mtx.n == 0 && o_cond.n == 0, "term leaves %d mutexes and %d conditions", o_mtx.n, o_cond.n);
	vt_class("hand-over");
	vt_state(vt_hash(5, vt_rnd()));
}
