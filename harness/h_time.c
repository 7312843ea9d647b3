/* W01: clock helpers with the clock and the sleeping calls replaced by
 * stand-ins on virtual time, and real sleeps interrupted by real signals. */
#include "vt.h"
#include "sc_time.h"
#include <poll.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef __int128 i128;
static bool active;
static struct timespec v_real, v_mono;
static i128 slept;      /* virtual nanoseconds spent in sleeping calls */
static int interrupts;  /* still to come */
static int sleep_errno; /* every sleeping call fails with this */
static bool junk_rem;
static uint64_t calls;

static i128 ns_of(struct timespec t) { return (i128) t.tv_sec * 1000000000 + t.tv_nsec; }

int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!active) {
		return __real_clock_gettime(c, ts);
	}
	calls++;
	if (c == CLOCK_REALTIME) {
		*ts = v_real;
	} else if (c == CLOCK_MONOTONIC) {
		*ts = v_mono;
	} else { /* another clock: a value of its own */
		ts->tv_sec = v_mono.tv_sec ^ 0x5555;
		ts->tv_nsec = 123456789;
	}
	return 0;
}
int __real_gettimeofday(struct timeval *tv, void *z);
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
	if (!active) {
		return __real_gettimeofday(tv, z);
	}
	tv->tv_sec = v_real.tv_sec;
	tv->tv_usec = v_real.tv_nsec / 1000;
	return 0;
}

static void advance(i128 ns)
{
	slept += ns;
	i128 m = ns_of(v_mono) + ns;
	v_mono.tv_sec = (time_t) (m / 1000000000);
	v_mono.tv_nsec = (long) (m % 1000000000);
}

/* sleeps; returns an errno and what is left */
static int nap(i128 want, i128 *left)
{
	calls++;
	*left = want;
	if (sleep_errno) {
		return sleep_errno;
	}
	if (interrupts > 0 && want > 0) {
		i128 part;
		interrupts--;
		switch (vt_below(4)) {
		case 0: part = 0; break;
		case 1: part = want - 1; break;
		case 2: part = want > 1000 ? 999 : 0; break;
		default: part = (i128) ((unsigned __int128) vt_rnd() % (unsigned __int128) want);
		}
		vt_log("  interrupted after %" PRIu64 " of %" PRIu64 " ns", (uint64_t) part, (uint64_t) want);
		advance(part);
		*left = want - part;
		vt_class("interrupted");
		return EINTR;
	}
	advance(want);
	*left = 0;
	return 0;
}
static bool valid(const struct timespec *t) { return t->tv_nsec >= 0 && t->tv_nsec < 1000000000 && t->tv_sec >= 0; }

int __real_nanosleep(const struct timespec *t, struct timespec *rem);
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem)
{
	i128 left;
	int e;
	if (!active) {
		return __real_nanosleep(t, rem);
	}
	if (!valid(t)) {
		errno = EINVAL;
		return -1;
	}
	e = nap(ns_of(*t), &left);
	if (e == EINTR && rem) {
		rem->tv_sec = (time_t) (left / 1000000000);
		rem->tv_nsec = (long) (left % 1000000000);
	} else if (rem && junk_rem && e == 0) {
		rem->tv_sec = 0; /* the kernel leaves it alone; nothing may depend on it */
		rem->tv_nsec = 0;
	}
	errno = e ? e : errno;
	return e ? -1 : 0;
}
int __real_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem);
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem)
{
	i128 left, want;
	int e;
	if (!active) {
		return __real_clock_nanosleep(c, fl, t, rem);
	}
	if (!valid(t)) {
		return EINVAL;
	}
	want = ns_of(*t);
	if (fl & TIMER_ABSTIME) {
		want -= ns_of(c == CLOCK_MONOTONIC ? v_mono : v_real);
		want = want < 0 ? 0 : want;
	}
	e = nap(want, &left);
	if (e == EINTR && rem && !(fl & TIMER_ABSTIME)) {
		rem->tv_sec = (time_t) (left / 1000000000);
		rem->tv_nsec = (long) (left % 1000000000);
	}
	return e;
}
int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us)
{
	i128 left;
	int e;
	if (!active) {
		return __real_usleep(us);
	}
	e = nap((i128) us * 1000, &left);
	errno = e ? e : errno;
	return e ? -1 : 0;
}
int __real_poll(struct pollfd *f, nfds_t n, int ms);
int __wrap_poll(struct pollfd *f, nfds_t n, int ms)
{
	i128 left;
	int e;
	if (!active || n) {
		return __real_poll(f, n, ms);
	}
	e = nap((i128) (ms < 0 ? 0 : ms) * 1000000, &left);
	errno = e ? e : errno;
	return e ? -1 : 0;
}

static uint64_t raw_mono(void)
{
	struct timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return (uint64_t) t.tv_sec * 1000000000u + (uint64_t) t.tv_nsec;
}
static uint64_t raw_real(void)
{
	struct timespec t;
	syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
	return (uint64_t) t.tv_sec * 1000000000u + (uint64_t) t.tv_nsec;
}

static struct timespec pick(bool ns)
{
	struct timespec t;
	uint64_t max = ns ? 18446744072ull : 9223372036854774ull;
	switch (vt_below(6)) {
	case 0: t.tv_sec = (time_t) vt_below(3); break;
	case 1: t.tv_sec = (time_t) (max - vt_below(3)); break;
	case 2: t.tv_sec = (time_t) (((1ull << 31) + (uint64_t) vt_range(-2, 2)) % max); break;
	case 3: t.tv_sec = (time_t) (((1ull << 32) / 1000 + (uint64_t) vt_range(-2, 2))); break;
	case 4: t.tv_sec = (time_t) (1700000000 + vt_below(1000000)); break;
	default: t.tv_sec = (time_t) ((vt_rnd() >> vt_below(64)) % max);
	}
	switch (vt_below(5)) {
	case 0: t.tv_nsec = 0; break;
	case 1: t.tv_nsec = 999999999; break;
	case 2: t.tv_nsec = (long) vt_below(1000) * 1000000 + vt_range(-1, 1) * (vt_chance(1, 2) ? 1 : 0); break;
	case 3: t.tv_nsec = 999500000 + (long) vt_below(499999); break;
	default: t.tv_nsec = (long) vt_below(1000000000);
	}
	t.tv_nsec = t.tv_nsec < 0 ? 0 : t.tv_nsec;
	return t;
}

static volatile sig_atomic_t alarms;
static void on_alarm(int s)
{
	(void) s;
	alarms++;
}

void vt_case(uint64_t cn)
{
#ifdef REALTIME
	/* real clocks and sleeps, with real interruptions */
	uint64_t ms = vt_chance(1, 6) ? 0 : 1 + vt_below(40), a, b, g;
	struct itimerval it = {{0, (suseconds_t) (500 + vt_below(5000))}, {0, (suseconds_t) (300 + vt_below(3000))}}, off = {{0, 0}, {0, 0}};
	struct sigaction sa = {.sa_handler = on_alarm, .sa_flags = vt_chance(1, 2) ? SA_RESTART : 0};
	(void) cn;
	for (int k = 0; k < 200; k++) {
		a = raw_mono(), g = sc_time_mono_ns(), b = raw_mono();
		VT_CHECK(a <= g && g <= b, "monotonic ns %" PRIu64 " is not within [%" PRIu64 ", %" PRIu64 "]", g, a, b);
		a = raw_mono() / 1000000, g = sc_time_mono_ms(), b = raw_mono() / 1000000;
		VT_CHECK(a <= g && g <= b, "monotonic ms %" PRIu64 " is not within [%" PRIu64 ", %" PRIu64 "]", g, a, b);
	}
	a = raw_real(), g = sc_time_ns(), b = raw_real();
	if (a <= b && b - a < 1000000000u) { /* the wall clock was not stepped */
		VT_CHECK(a <= g && g <= b, "wall ns %" PRIu64 " is not within [%" PRIu64 ", %" PRIu64 "]", g, a, b);
	}
	sigaction(SIGALRM, &sa, NULL);
	alarms = 0;
	if (vt_chance(3, 4)) {
		setitimer(ITIMER_REAL, &it, NULL);
	}
	a = raw_mono();
	int rc = sc_time_sleep(ms);
	b = raw_mono();
	setitimer(ITIMER_REAL, &off, NULL);
	vt_log("sleep(%" PRIu64 ") -> %d after %" PRIu64 " ns, %d signals", ms, rc, b - a, (int) alarms);
	VT_CHECK(rc == 0, "sleep(%" PRIu64 ") fails with %d, %s", ms, rc, strerror(errno));
	VT_CHECK(b - a >= ms * 1000000, "sleep(%" PRIu64 " ms) returned after %" PRIu64 " ns (%d signals)", ms, b - a, (int) alarms);
	if (alarms > 0) {
		vt_class("really-interrupted");
	}
	vt_class("real-sleep");
	vt_state(vt_hash(ms, (uint64_t) alarms));
	if (vt_want_sample() && alarms > 3) {
		vt_sample("sleep(%" PRIu64 " ms) took %" PRIu64 " ns with %d signals arriving", ms, b - a, (int) alarms);
	}
#else
	uint64_t last = 0, g;
	(void) cn;
	active = true;
	for (int k = 0; k < 8; k++) {
		v_real = pick(false);
		v_mono = pick(false);
		g = sc_time_ms();
		VT_CHECK(g == (uint64_t) (ns_of(v_real) / 1000000), "wall ms of %" PRId64 ".%09ld is %" PRIu64, (int64_t) v_real.tv_sec, v_real.tv_nsec, g);
		g = sc_time_mono_ms();
		VT_CHECK(g == (uint64_t) (ns_of(v_mono) / 1000000), "monotonic ms of %" PRId64 ".%09ld is %" PRIu64, (int64_t) v_mono.tv_sec, v_mono.tv_nsec, g);
		v_real = pick(true);
		v_mono = pick(true);
		g = sc_time_ns();
		VT_CHECK(g == (uint64_t) ns_of(v_real), "wall ns of %" PRId64 ".%09ld is %" PRIu64, (int64_t) v_real.tv_sec, v_real.tv_nsec, g);
		g = sc_time_mono_ns();
		VT_CHECK(g == (uint64_t) ns_of(v_mono), "monotonic ns of %" PRId64 ".%09ld is %" PRIu64, (int64_t) v_mono.tv_sec, v_mono.tv_nsec, g);
		vt_state(vt_hash((uint64_t) v_real.tv_sec, (uint64_t) v_mono.tv_nsec));
		if (vt_want_sample()) {
			vt_sample("clock %" PRId64 ".%09ld -> %" PRIu64 " ns", (int64_t) v_mono.tv_sec, v_mono.tv_nsec, g);
		}
	}
	/* a monotonic clock creeping over unit borders while the wall clock jumps */
	v_mono = pick(true);
	v_mono.tv_sec /= 2;
	for (int k = 0; k < 20; k++) {
		advance((i128) vt_below(vt_chance(1, 2) ? 3 : 2000000000));
		v_real = pick(true);
		g = sc_time_mono_ms();
		VT_CHECK(g >= last, "the monotonic clock goes back from %" PRIu64 " to %" PRIu64, last, g);
		last = g;
	}
	for (int k = 0; k < 6; k++) {
		uint64_t ms;
		int n0, rc;
		switch (vt_below(6)) {
		case 0: ms = vt_below(3); break;
		case 1: ms = vt_below(100000); break;
		case 2: ms = vt_chance(1, 4) ? (uint64_t) INT64_MAX - vt_below(5) : (1ull << 32) + vt_below(10); break;
		case 3: ms = vt_edge64() >> vt_below(30); break;
		case 4: ms = 1000 * vt_below(20) + (uint64_t) vt_range(-1, 1) * 0 + 999 * vt_below(2); break;
		default: ms = vt_below(3000);
		}
		v_mono = pick(true);
		v_mono.tv_sec &= 0xffffff;
		slept = 0;
		calls = 0;
		interrupts = n0 = vt_chance(1, 3) ? 0 : (int) vt_below(vt_chance(1, 200) ? 4000 : vt_chance(1, 4) ? 60 : 5);
		sleep_errno = vt_chance(1, 15) ? (vt_chance(1, 2) ? EINVAL : EFAULT) : 0;
		junk_rem = vt_chance(1, 2);
		errno = vt_chance(1, 2) ? EINTR : 0;
		rc = sc_time_sleep(ms);
		vt_log("sleep(%" PRIu64 ") -> %d after %" PRIu64 " ms, %d of %d interruptions", ms, rc, (uint64_t) (slept / 1000000), n0 - interrupts, n0);
		if (sleep_errno) {
			VT_CHECK(rc < 0 || ms == 0, "sleep(%" PRIu64 ") returns %d although the system refuses to sleep", ms, rc);
			vt_class("sleep-refused");
		} else if (rc == 0) {
			VT_CHECK(slept >= (i128) ms * 1000000, "sleep(%" PRIu64 " ms) succeeds after %" PRIu64 " ns and %d interruptions", ms, (uint64_t) slept, n0 - interrupts);
			VT_CHECK(slept <= (i128) ms * 1000000 * 2 + 1000000000, "sleep(%" PRIu64 " ms) sleeps %" PRIu64 " ms", ms, (uint64_t) (slept / 1000000));
			vt_class(n0 ? "slept-interrupted" : "slept");
		} else {
			VT_CHECK(rc < 0, "sleep returns %d", rc);
			VT_CHECK(false, "sleep(%" PRIu64 ") fails after %d interruptions", ms, n0 - interrupts);
			vt_class("not-representable");
		}
		vt_state(vt_hash(ms, (uint64_t) n0));
	}
	active = false;
#endif
}
