/* T01: histories of start, join and termination over several thread objects. */
#include "vt.h"
#include "sc_thread.h"
#define STORMY
#include "sync.inc"
#include <fcntl.h>

#define NT 6
static int f_attr, f_create, f_join;
static pthread_t handles[NT + 4];
static int nh;
static pthread_mutex_t hm = PTHREAD_MUTEX_INITIALIZER;

int __real_pthread_attr_init(pthread_attr_t *a);
int __wrap_pthread_attr_init(pthread_attr_t *a)
{
	if (noisy && f_attr) {
		return f_attr;
	}
	touched(a);
	int rc = __real_pthread_attr_init(a);
	if (ACCOUNTED && rc == 0) {
		o_add(&o_attr, a);
	}
	return rc;
}
int __real_pthread_attr_destroy(pthread_attr_t *a);
int __wrap_pthread_attr_destroy(pthread_attr_t *a)
{
	if (ACCOUNTED && !o_del(&o_attr, a)) {
		vt_fail("a thread attribute is destroyed that is not initialised");
	}
	touched(a);
	return __real_pthread_attr_destroy(a);
}
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	if (!ACCOUNTED) {
		if (a) {
			touched(a);
		}
		return __real_pthread_create(t, a, fn, arg);
	}
	if (f_create) {
		/* POSIX: the handle is undefined after a failure */
		*t = (pthread_t) (uintptr_t) &f_create;
		return f_create;
	}
	int rc = __real_pthread_create(t, a, fn, arg);
	if (rc == 0) {
		handles[nh++] = *t;
	}
	return rc;
}
int __real_pthread_join(pthread_t t, void **r);
int __wrap_pthread_join(pthread_t t, void **r)
{
	if (!ACCOUNTED) {
		noise();
		return __real_pthread_join(t, r);
	}
	int k;
	for (k = 0; k < nh && handles[k] != t; k++) {}
	if (k == nh) {
		vt_fail("a thread is joined that does not exist or was joined before");
	}
	noise();
	int rc = __real_pthread_join(t, r);
	handles[k] = handles[--nh];
	return f_join ? f_join : rc;
}

struct job {
	struct sc_thread *t;
	vt_rng r;
	int runs, finished;
	void *arg, *ret;
	uint64_t result[8]; /* plain: published by the join alone */
	uint64_t want;
	int gate; /* the function waits for this */
	bool gated;
	bool started;
	bool lasting;    /* runs for more than a second */
	bool deep;       /* needs a good part of an ordinary stack */
	pthread_t joiner;
};
static struct job jobs[NT];

/* half a megabyte, as a thread of the system's default size has many times over */
static __attribute__((noinline)) uint64_t deep(uint64_t v)
{
	volatile unsigned char block[512 * 1024];
	for (size_t i = 0; i < sizeof(block); i += 1024) {
		block[i] = (unsigned char) (v + i);
	}
	uint64_t n = 0;
	for (size_t i = 0; i < sizeof(block); i += 1024) {
		n += block[i] == (unsigned char) (v + i);
	}
	return n;
}

static void *body(void *p)
{
	struct job *j = p;
	vt_rng r = j->r;
	if (__atomic_add_fetch(&j->runs, 1, __ATOMIC_RELAXED) != 1) {
		vt_fail("the function runs twice");
	}
	if (j->arg != p) {
		vt_fail("the function gets another argument");
	}
	if (j->gated) {
		uint64_t t0 = vt_now_us();
		while (!__atomic_load_n(&j->gate, __ATOMIC_RELAXED)) {
			if (vt_now_us() - t0 > 30000000) {
				vt_fail("the starter does not go on while the function runs");
			}
			delay_us(10);
		}
	}
	if (j->lasting) {
		delay_us(1300000);
	}
	if (j->deep && deep(j->want) != 512) {
		vt_fail("what the function keeps on its stack does not stay");
	}
	switch (vt_below_r(&r, 4)) {
	case 2:
		poke(j->joiner);
		sched_yield();
		poke(j->joiner);
		break;
	case 0: delay_us((unsigned) vt_below_r(&r, 1500)); break;
	case 1: sched_yield(); break;
	default: break;
	}
	for (int i = 0; i < 8; i++) {
		j->result[i] = j->want + (uint64_t) i;
	}
	__atomic_store_n(&j->finished, 1, __ATOMIC_RELAXED);
	return j->ret;
}
static int second_ran;
static void *second(void *p)
{
	(void) p;
	__atomic_add_fetch(&second_ran, 1, __ATOMIC_RELAXED);
	return NULL;
}

static int running;

static void join(struct job *j, bool term)
{
	void *ret = (void *) 0x77;
	int rc;
	bool was = j->started, wants = vt_chance(2, 3);
	if (was && j->gated) {
		__atomic_store_n(&j->gate, 1, __ATOMIC_RELAXED);
	}
	f_join = was && vt_chance(1, 12) ? EINVAL : 0;
	warp = was && !j->lasting && vt_chance(1, 2);
	if (was) {
		vt_class(j->lasting ? "joined-after-over-a-second" : warp ? "joined-past-any-deadline" : "joined");
	}
	noisy = true;
	rc = term ? sc_thread_term(j->t) : sc_thread_join(j->t, wants ? &ret : NULL);
	noisy = false;
	warp = 0;
	vt_log("%s of object %d (%s) -> %d", term ? "term" : "join", (int) (j - jobs), was ? "started" : "not started", rc);
	if (!was) {
		VT_CHECK(rc == 0, "%s of a thread that is not running returns %d", term ? "term" : "join", rc);
		vt_class("join-not-started");
		f_join = 0;
		return;
	}
	VT_CHECK(__atomic_load_n(&j->finished, __ATOMIC_RELAXED) == 1, "%s returns before the function has finished", term ? "term" : "join");
	for (int i = 0; i < 8; i++) {
		VT_CHECK(j->result[i] == j->want + (uint64_t) i, "what the function wrote is not visible after the join");
	}
	VT_CHECK(j->runs == 1, "the function ran %d times", j->runs);
	if (f_join) {
		VT_CHECK(rc == -1, "a failing join returns %d", rc);
		const char *e = sc_thread_err(j->t);
		VT_CHECK(e && e[0] && strnlen(e, 128) < 128, "a failing join has no message");
		vt_class("join.failed");
	} else {
		VT_CHECK(rc == 0, "%s returns %d", term ? "term" : "join", rc);
		if (!term && wants) {
			VT_CHECK(ret == j->ret, "join delivers %p, the function returned %p", ret, j->ret);
			vt_class("result-delivered");
		}
	}
	f_join = 0;
	j->started = false;
	running--;
	VT_CHECK(nh == running, "%d threads exist, %d are started", nh, running);
}

/* several threads, each with a thread object of its own, at once */
struct little {
	uint64_t in, out;
	pthread_t who;
};
static void *little_fn(void *p)
{
	struct little *l = p;
	l->out = l->in * 3 + 1;
	return p;
}
static void one_thread(struct stormer *s, int round)
{
	struct sc_thread t;
	struct little l = {vt_rnd_r(&tl_r), 0, 0};
	void *ret = NULL;
	memset(&t, 0x5a, sizeof(t));
	sc_thread_init(&t);
	noisy = true;
	int rc = sc_thread_start(&t, little_fn, &l), rc2 = 1;
	if (rc == 0) {
		rc2 = sc_thread_join(&t, &ret);
	}
	noisy = false;
	vt_event(3);
	if (rc != 0 || rc2 != 0 || ret != &l || l.out != l.in * 3 + 1) {
		vt_fail("starter %d, thread %d: start %d, join %d, result %p for %p, while other threads start theirs", s->id, round, rc, rc2, ret, (void *) &l);
	}
}

void vt_case(uint64_t cn)
{
	int n = (int) vt_range(1, NT), steps = (int) vt_range(2, 24);
	uint64_t h = (uint64_t) n;
	bool lasting = cn % 2500 == 40;
	pokes_on();
	noise_level = (int) vt_below(4);
	tl_r.s = vt_rnd();
	if (vt_chance(1, 15)) {
		vt_state(run_storm(one_thread));
		return;
	}
	memset(jobs, 0, sizeof(jobs));
	nh = 0;
	running = 0;
	for (int i = 0; i < n; i++) {
		jobs[i].t = vt_malloc(sizeof(*jobs[i].t));
		memset(jobs[i].t, (int) vt_rnd() & 0xff, sizeof(*jobs[i].t));
		sc_thread_init(jobs[i].t);
	}
	for (int s = 0; s < steps; s++) {
		struct job *j = &jobs[vt_below((uint64_t) n)];
		int what = (int) vt_below(8);
		h = vt_hash(h, (uint64_t) (j - jobs) * 10 + (uint64_t) what);
		if (j->started) {
			if (what < 3) {
				join(j, false);
			} else if (what < 5) {
				join(j, true);
			} else if (j->gated) {
				__atomic_store_n(&j->gate, 1, __ATOMIC_RELAXED);
			}
			continue;
		}
		if (what == 0) {
			join(j, vt_chance(1, 2));
		} else if (what == 1 || what == 2) {
			/* a start that fails */
			int rc;
			*(what == 1 ? &f_attr : &f_create) = what == 1 ? ENOMEM : EAGAIN;
			j->runs = 0;
			second_ran = 0;
			noisy = true;
			rc = sc_thread_start(j->t, second, NULL);
			noisy = false;
			bool ok = rc == 0;
			f_attr = f_create = 0;
			vt_log("start of object %d with a failing primitive -> %d", (int) (j - jobs), rc);
			if (ok && what == 1) { /* did not need the attribute */
				noisy = true;
				sc_thread_term(j->t);
				noisy = false;
				VT_CHECK(second_ran == 1, "a start with a failing primitive returns success, its function ran %d times", second_ran);
				continue;
			}
			VT_CHECK(rc == -1, "a failing start returns %d", rc);
			const char *e = sc_thread_err(j->t);
			VT_CHECK(e && strnlen(e, 128) > 0 && strnlen(e, 128) < 128, "a failing start has no message");
			VT_CHECK(o_attr.n == 0, "a failing start leaves an attribute");
			VT_CHECK(nh == running, "a failing start leaves a thread");
			vt_class(what == 1 ? "start.refused-attr" : "start.refused");
			if (vt_chance(1, 2)) {
				join(j, vt_chance(1, 2));
				vt_class("join-after-failed-start");
			}
		} else {
			struct sc_thread *t = j->t;
			int rc;
			memset(j, 0, sizeof(*j));
			j->t = t;
			j->arg = j;
			j->ret = vt_chance(1, 4) ? NULL : (void *) (uintptr_t) vt_rnd();
			j->want = vt_rnd();
			j->r.s = vt_rnd();
			j->gated = vt_chance(1, 3);
			j->joiner = pthread_self();
			j->lasting = lasting;
			lasting = false;
			j->deep = vt_chance(1, 8);
			if (j->deep) {
				vt_class("deep-stack");
			}
			noisy = true;
			rc = sc_thread_start(t, body, j);
			noisy = false;
			VT_CHECK(rc == 0, "start returns %d", rc);
			VT_CHECK(o_attr.n == 0, "start leaves an attribute");
			VT_CHECK(nh == running + 1, "start created %d threads", nh - running);
			vt_log("start of object %d%s", (int) (j - jobs), j->gated ? " (waits for the starter)" : "");
			j->started = true;
			running++;
			vt_class(j->gated ? "concurrent-with-starter" : "started");
			if (running > 1) {
				vt_class("several-running");
			}
		}
	}
	for (int i = 0; i < n; i++) {
		join(&jobs[i], vt_chance(1, 2));
		join(&jobs[i], vt_chance(1, 2));
	}
	VT_CHECK(nh == 0, "%d threads stay", nh);
	vt_state(h);
	if (vt_want_sample() && steps > 10) {
		vt_sample("%d objects, %d operations: every function ran once, every join followed its end", n, steps);
	}
	for (int i = 0; i < n; i++) {
		vt_free(jobs[i].t);
	}
}
