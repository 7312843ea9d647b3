/* Shared by the schedule monitors: per-thread generator, random delays, and
 * pthread stand-ins that delay, fail and account (only while `noisy`). */
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static __thread vt_rng tl_r;
static __thread bool noisy; /* the calling thread is inside the code under test */
static int noise_level;     /* 0..3, per case */

static void delay_us(unsigned us)
{
	struct timespec t = {us / 1000000, (long) (us % 1000000) * 1000};
	bool n = noisy;
	noisy = false;
	nanosleep(&t, NULL);
	noisy = n;
}
static void noise(void)
{
	if (!noisy || noise_level == 0) {
		return;
	}
	switch (vt_below_r(&tl_r, noise_level == 1 ? 40 : noise_level == 2 ? 10 : 4)) {
	case 0: sched_yield(); break;
	case 1: delay_us((unsigned) vt_below_r(&tl_r, 60)); break;
	case 2:
		for (volatile int i = (int) vt_below_r(&tl_r, 2000); i > 0; i--) {}
		break;
	case 3:
		if (vt_below_r(&tl_r, 8) == 0) {
			delay_us((unsigned) vt_below_r(&tl_r, 1500));
		}
		break;
	default: break;
	}
}
/* a stamp whose order is the order of the stamps, without ordering anything
 * else for the data-race detector */
static uint64_t clock_;
static uint64_t stamp(void) { return __atomic_add_fetch(&clock_, 1, __ATOMIC_RELAXED); }

#ifndef NOISE_ONLY
/* While `warp` is set, the code under test reads clocks an hour slow and does
 * not sleep: a wait bounded by some deadline gives up at once, one that is
 * bounded by nothing but its event does not notice. */
static int warp;
static void poked(int sig) { (void) sig; }
static void pokes_on(void)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = poked; /* no SA_RESTART: whatever can be interrupted is */
	sigaction(SIGUSR1, &sa, NULL);
}
static void poke(pthread_t t)
{
	pthread_kill(t, SIGUSR1);
}
#define WARPED (noisy && __atomic_load_n(&warp, __ATOMIC_RELAXED))
int __real_clock_gettime(clockid_t c, struct timespec *t);
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	int rc = __real_clock_gettime(c, t);
	if (rc == 0 && WARPED) {
		t->tv_sec -= t->tv_sec > 3600 ? 3600 : t->tv_sec;
	}
	return rc;
}
int __real_gettimeofday(struct timeval *t, void *z);
int __wrap_gettimeofday(struct timeval *t, void *z)
{
	int rc = __real_gettimeofday(t, z);
	if (rc == 0 && t && WARPED) {
		t->tv_sec -= 3600;
	}
	return rc;
}
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t)
{
	time_t v = __real_time(NULL);
	v -= WARPED ? 3600 : 0;
	if (t) {
		*t = v;
	}
	return v;
}
int __real_nanosleep(const struct timespec *a, struct timespec *b);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { return WARPED ? 0 : __real_nanosleep(a, b); }
int __real_usleep(useconds_t u);
int __wrap_usleep(useconds_t u) { return WARPED ? 0 : __real_usleep(u); }

/* While `storm` is set, several threads create and destroy objects of their own
 * at once: nothing is accounted, and what is passed to the primitives is touched
 * plainly, so that sharing it between objects is a data race. */
static int storm;
#define ACCOUNTED (noisy && !storm)
static void touched(const void *p)
{
	if (noisy && storm) {
		volatile unsigned char *c = (volatile unsigned char *) (uintptr_t) p;
		unsigned char v = *c;
		noise();
		*c = v;
	}
}
#ifdef STORMY
static int storm_go;
struct stormer {
	pthread_t t;
	vt_rng r;
	int id, n;
	void (*fn)(struct stormer *s, int round);
};
static void *stormer_fn(void *p)
{
	struct stormer *s = p;
	tl_r = s->r;
	while (!__atomic_load_n(&storm_go, __ATOMIC_RELAXED)) {}
	for (int i = 0; i < s->n; i++) {
		s->fn(s, i);
		if (vt_below_r(&tl_r, 5) == 0) {
			delay_us((unsigned) vt_below_r(&tl_r, 30));
		}
	}
	return NULL;
}
static uint64_t run_storm(void (*fn)(struct stormer *s, int round))
{
	struct stormer s[4];
	int n = (int) vt_range(2, 4);
	uint64_t h = vt_hash(77, (uint64_t) n);
	memset(s, 0, sizeof(s));
	storm = 1;
	storm_go = 0;
	for (int i = 0; i < n; i++) {
		s[i].id = i;
		s[i].n = (int) vt_range(1, 12);
		s[i].fn = fn;
		s[i].r.s = vt_rnd();
		h = vt_hash(h, s[i].r.s);
		if (pthread_create(&s[i].t, NULL, stormer_fn, &s[i])) {
			vt_die("pthread_create");
		}
	}
	__atomic_store_n(&storm_go, 1, __ATOMIC_RELAXED);
	for (int i = 0; i < n; i++) {
		pthread_join(s[i].t, NULL);
	}
	storm = 0;
	vt_class("created-at-once");
	return h;
}
#endif

/* accounting of system objects by address */
#define MAXOBJ 64
struct objs {
	void *p[MAXOBJ];
	int n;
};
static struct objs o_mtx, o_cond, o_mattr, o_attr;
static void o_add(struct objs *o, void *p)
{
	if (o->n < MAXOBJ) {
		o->p[o->n++] = p;
	}
}
static bool o_del(struct objs *o, void *p)
{
	for (int i = 0; i < o->n; i++) {
		if (o->p[i] == p) {
			o->p[i] = o->p[--o->n];
			return true;
		}
	}
	return false;
}
static int f_mattr, f_mtx, f_cond, f_mtxd, f_condd; /* error codes to inject */

int __real_pthread_mutexattr_init(pthread_mutexattr_t *a);
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a)
{
	if (noisy && f_mattr) {
		return f_mattr;
	}
	touched(a);
	int rc = __real_pthread_mutexattr_init(a);
	if (ACCOUNTED && rc == 0) {
		o_add(&o_mattr, a);
	}
	return rc;
}
int __real_pthread_mutexattr_destroy(pthread_mutexattr_t *a);
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t *a)
{
	if (ACCOUNTED && !o_del(&o_mattr, a)) {
		vt_fail("a mutex attribute is destroyed that is not initialised");
	}
	touched(a);
	return __real_pthread_mutexattr_destroy(a);
}
int __real_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	if (noisy && f_mtx) {
		return f_mtx;
	}
	if (a) {
		touched(a);
	}
	touched(m);
	int rc = __real_pthread_mutex_init(m, a);
	if (ACCOUNTED && rc == 0) {
		o_add(&o_mtx, m);
	}
	return rc;
}
int __real_pthread_mutex_destroy(pthread_mutex_t *m);
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (ACCOUNTED && !o_del(&o_mtx, m)) {
		vt_fail("a mutex is destroyed that is not initialised");
	}
	int rc = __real_pthread_mutex_destroy(m);
	return noisy && f_mtxd ? f_mtxd : rc;
}
#endif
