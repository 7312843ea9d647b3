/* E01: the performance counters with the kernel replaced by a stand-in that
 * runs on virtual time and counts virtual work. */
#include "vt.h"
#include "sc_perf.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define FD0 5000
#define MAXC 64
static bool inside;
static uint64_t now_ns; /* virtual time */
static struct cnt {
	bool open_, enabled;
	uint64_t type, config, rf;
	uint64_t value, en, run;
	uint64_t truth; /* everything that happened meanwhile, wherever */
	bool inherit, no_kernel, no_user;
	unsigned share; /* per cent of the time it has a register */
	double rate;
} C[MAXC];
static int nc, opens, closes, enables, disables, reads;
static int f_open_at, f_prctl_at, f_read_at, f_clock_at, f_short_at;
static int np, ncl;
static bool odd_rates;
static bool threads, in_kernel; /* the section starts threads, makes system calls */
static uint64_t skew;

static void work(uint64_t ns)
{
	now_ns += ns;
	for (int i = 0; i < nc; i++) {
		if (C[i].open_ && C[i].enabled) {
			uint64_t r = ns / 100 * C[i].share;
			C[i].en += ns;
			C[i].run += r;
			uint64_t own = (uint64_t) ((double) r * C[i].rate);
			uint64_t child = threads ? own / 3 : 0, kern = in_kernel ? own / 2 : 0;
			C[i].truth += own + child + kern;
			C[i].value += (C[i].no_user ? 0 : own) + (C[i].inherit ? child : 0) + (C[i].no_kernel ? 0 : kern);
		}
	}
}
long __real_syscall(long n, ...);
long __wrap_syscall(long n, ...)
{
	long a[6];
	va_list va;
	va_start(va, n);
	for (int i = 0; i < 6; i++) {
		a[i] = va_arg(va, long);
	}
	va_end(va);
	if (n != __NR_perf_event_open) {
		return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	}
	struct perf_event_attr *p = (void *) a[0];
	opens++;
	int group = (int) a[3];
	if (group != -1 && (group < FD0 || group >= FD0 + MAXC || !C[group - FD0].open_)) { /* no such leader */
		errno = EBADF;
		return -1;
	}
	if (f_open_at && opens == f_open_at) {
		errno = vt_chance(1, 2) ? ENOENT : EACCES;
		return -1;
	}
	if (nc == MAXC) {
		vt_fail("more than %d counters are opened", MAXC);
	}
	if ((pid_t) a[1] != 0 || (int) a[2] != -1) {
		vt_fail("a counter is opened for process %d, processor %d", (int) a[1], (int) a[2]);
	}
	if (p->read_format & ~3ull) {
		vt_die("read format %llx is not known to the stand-in", (unsigned long long) p->read_format);
	}
	struct cnt *c = &C[nc];
	memset(c, 0, sizeof(*c));
	c->open_ = true;
	c->enabled = !p->disabled;
	c->type = p->type;
	c->config = p->config;
	c->rf = p->read_format;
	c->inherit = p->inherit;
	c->no_kernel = p->exclude_kernel;
	c->no_user = p->exclude_user;
	c->share = odd_rates ? (vt_chance(1, 8) ? 0 : (unsigned) vt_range(1, 100)) : 100;
	c->rate = (double) vt_range(0, 5000) / 1000;
	nc++;
	work(vt_below(3) * 1000000000ull); /* setting up takes its time */
	return FD0 + nc - 1;
}
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (fd < FD0 || fd >= FD0 + MAXC) {
		return __real_read(fd, b, n);
	}
	struct cnt *c = &C[fd - FD0];
	reads++;
	if (!c->open_) {
		vt_fail("a closed counter is read");
	}
	if (f_read_at && reads == f_read_at) {
		errno = EIO;
		return -1;
	}
	if (f_short_at && reads == f_short_at) {
		return 0;
	}
	uint64_t v[3];
	int k = 0;
	v[k++] = c->value;
	if (c->rf & 1) {
		v[k++] = c->en;
	}
	if (c->rf & 2) {
		v[k++] = c->run;
	}
	if (n < (size_t) k * 8) {
		errno = ENOSPC;
		return -1;
	}
	memcpy(b, v, (size_t) k * 8);
	return k * 8;
}
int __real_close(int fd);
int __wrap_close(int fd)
{
	if (inside && (fd < FD0 || fd >= FD0 + nc || !C[fd - FD0].open_)) {
		vt_fail("descriptor %d is closed, which is not an open counter", fd);
	}
	if (fd < FD0 || fd >= FD0 + MAXC) {
		return __real_close(fd);
	}
	C[fd - FD0].open_ = false;
	closes++;
	return 0;
}
int __real_prctl(int o, ...);
int __wrap_prctl(int o, ...)
{
	if (o != PR_TASK_PERF_EVENTS_ENABLE && o != PR_TASK_PERF_EVENTS_DISABLE) {
		vt_fail("prctl %d", o);
	}
	if (f_prctl_at && ++np == f_prctl_at) {
		errno = EINVAL;
		return -1;
	}
	if (o == PR_TASK_PERF_EVENTS_ENABLE) {
		enables++;
	} else {
		disables++;
	}
	for (int i = 0; i < nc; i++) {
		C[i].enabled = o == PR_TASK_PERF_EVENTS_ENABLE;
	}
	return 0;
}
int __real_clock_gettime(clockid_t c, struct timespec *t);
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	if (!inside) {
		return __real_clock_gettime(c, t);
	}
	if (f_clock_at && ++ncl == f_clock_at) {
		errno = EINVAL;
		return -1;
	}
	uint64_t v = now_ns;
	switch (c) {
	case CLOCK_MONOTONIC_RAW: break;
	case CLOCK_MONOTONIC: case CLOCK_BOOTTIME: v += 123456789; break;
	case CLOCK_MONOTONIC_COARSE: v -= v % 4000000; break;
	case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: v /= 3; break; /* the rest of the time it waited */
	default: /* the wall clock is set now and then */
		skew += vt_below(5000000000ull);
		v = v + skew - (v > 4000000000ull ? vt_below(2000000000ull) : 0);
	}
	t->tv_sec = (time_t) (v / 1000000000ull);
	t->tv_nsec = (long) (v % 1000000000ull);
	return 0;
}

/* what the names mean, independently of the header under test */
static const struct {
	const char *name;
	uint64_t type, config;
} known[] = {
	{"cpu-clock", 1, 0},	    {"task-clock", 1, 1},	{"page-faults", 1, 2},	  {"context-switches", 1, 3}, {"cpu-migrations", 1, 4},
	{"page-fault-minor", 1, 5}, {"page-fault-major", 1, 6}, {"cpu-cycles", 0, 0},	  {"instructions", 0, 1},     {"cache-references", 0, 2},
	{"cache-misses", 0, 3},	    {"branch-instructions", 0, 4}, {"branch-misses", 0, 5}, {"L1D-read-miss", 3, 0x10000}, {"L1I-read-miss", 3, 0x10001},
};
#define NEV ((int) (sizeof(sc_perf_hw) / sizeof(sc_perf_hw[0])))

static int fd_out;
static char p_out[600];
void vt_setup(void)
{
	snprintf(p_out, sizeof(p_out), "%s/out", vt_tmpdir);
	fd_out = open(p_out, O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
	if (fd_out < 0 || dup2(fd_out, 1) < 0) {
		vt_die("capture");
	}
}
static char rep[20000];
static void report(void)
{
	fflush(stdout);
	ssize_t n = pread(fd_out, rep, sizeof(rep) - 1, 0);
	rep[n < 0 ? 0 : n] = 0;
	if (ftruncate(fd_out, 0) != 0) {
		vt_die("truncate");
	}
}
static bool find(const char *name, double *v, double *share, int *times)
{
	char *s = rep;
	*times = 0;
	while (s && *s) {
		char *e = strchr(s, '\n');
		char line[300];
		size_t n = e ? (size_t) (e - s) : strlen(s);
		n = n < sizeof(line) - 1 ? n : sizeof(line) - 1;
		memcpy(line, s, n);
		line[n] = 0;
		s = e ? e + 1 : NULL;
		char *q = strstr(line, name);
		if (!q) {
			continue;
		}
		/* a whole word, before the first number column */
		if ((q != line && q[-1] != ' ' && q[-1] != '|') || (q[strlen(name)] != ' ' && q[strlen(name)] != '|')) {
			continue;
		}
		char *bar = strchr(q, '|');
		if (!bar) {
			continue;
		}
		*v = strtod(bar + 1, NULL);
		char *par = strchr(bar + 1, '(');
		*share = par ? strtod(par + 1, NULL) : -1;
		(*times)++;
	}
	return *times > 0;
}

static uint64_t pick(void)
{
	if (vt_chance(1, 12)) {
		vt_class("days");
		return vt_rnd() >> (12 + vt_below(8));
	}
	return vt_chance(1, 6) ? vt_below(1000) : vt_chance(1, 2) ? (uint64_t) vt_range(1, 900) * 10000000ull : vt_below(20000000000ull);
}

static void faulty(void)
{
	/* the measurement must end with a report of the fault, not with numbers */
	int k = (int) vt_below(5);
	static const char *nm[] = {"open", "enable/disable", "read", "short read", "clock"};
	int pe[2];
	char e[2000];
	if (pipe(pe) != 0) {
		vt_die("pipe");
	}
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		dup2(pe[1], 2);
		nc = opens = reads = np = ncl = 0;
		switch (k) {
		case 0: f_open_at = (int) vt_range(1, NEV); break;
		case 1: f_prctl_at = (int) vt_range(1, 4); break;
		case 2: f_read_at = (int) vt_range(1, NEV); break;
		case 3: f_short_at = (int) vt_range(1, NEV); break;
		default: f_clock_at = (int) vt_range(1, 4); break;
		}
		inside = true;
		sc_perf_start();
		work(1000);
		sc_perf_pause();
		sc_perf_start();
		work(1000);
		sc_perf_end();
		inside = false;
		fflush(stdout);
		_exit(0);
	}
	close(pe[1]);
	size_t n = 0;
	ssize_t r;
	while (n < sizeof(e) - 1 && (r = read(pe[0], e + n, sizeof(e) - 1 - n)) > 0) {
		n += (size_t) r;
	}
	e[n] = 0;
	close(pe[0]);
	int st;
	waitpid(pid, &st, 0);
	report();
	vt_log("a failing %s: status %x, %s", nm[k], st, vt_quote(e, n > 150 ? 150 : n));
	if (WIFEXITED(st) && (WEXITSTATUS(st) == VT_FAIL_EXIT || WEXITSTATUS(st) == 71 || WEXITSTATUS(st) == 72)) {
		vt_fail("in the measuring process: %s", vt_quote(e, n));
	}
	VT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "a failing %s passes unnoticed", nm[k]);
	VT_CHECK(!strstr(rep, "cpu-clock"), "numbers are reported although %s failed", nm[k]);
	VT_CHECK(k == 4 || n > 0, "a failing %s ends the measurement without a report", nm[k]);
	if (k == 0) {
		bool named = false;
		for (int i = 0; i < NEV; i++) {
			named |= strstr(e, sc_perf_hw[i].name) != NULL;
		}
		VT_CHECK(named, "the refused counter is not named: %s", vt_quote(e, n));
	}
	vt_class(nm[k]);
	vt_state(vt_hash(99, (uint64_t) k));
}

void vt_case(uint64_t cn)
{
	uint64_t h = 0;
	(void) cn;
	if (vt_chance(1, 40)) {
		faulty();
		return;
	}
	int measures = (int) vt_range(1, 3);
	for (int m = 0; m < measures; m++) {
		int steps = (int) vt_range(0, 8);
		uint64_t total = 0, sections = 0;
		bool run = false;
		nc = opens = closes = enables = disables = reads = 0;
		odd_rates = vt_chance(2, 3);
		threads = vt_chance(1, 2);
		in_kernel = vt_chance(1, 2);
		vt_class(threads ? "with-threads" : "one-thread");
		vt_class(in_kernel ? "with-system-calls" : "no-system-calls");
		now_ns = vt_rnd() >> vt_range(2, 30);
		inside = true;
		sc_perf_start();
		inside = false;
		run = true;
		VT_CHECK(opens == NEV, "%d counters are opened for %d events", opens, NEV);
		for (int s = 0; s < steps; s++) {
			uint64_t d = pick();
			work(d);
			if (run) {
				total += d;
			}
			int k = (int) vt_below(5);
			h = vt_hash(h, (uint64_t) k);
			inside = true;
			if (k < 2) {
				sc_perf_pause();
				if (run) {
					sections++;
				} else {
					vt_class("pause-again");
				}
				run = false;
			} else if (k < 4 || run == false) {
				sc_perf_start();
				if (run) {
					vt_class("start-again");
				}
				run = true;
			}
			inside = false;
			VT_CHECK(opens == NEV, "resuming opens counters again");
			VT_CHECK(enables >= disables && (disables == (int) sections), "counters are enabled %d and disabled %d times in %d sections", enables, disables,
				 (int) sections);
		}
		uint64_t d = pick();
		work(d);
		if (run) {
			total += d;
		}
		/* the kernel's totals, as of the end */
		inside = true;
		sc_perf_end();
		inside = false;
		report();
		vt_log("measurement %d: %d steps, %d sections, %.3f s", m, steps, (int) sections + run, (double) total / 1e9);
		VT_CHECK(closes == opens, "%d counters are opened, %d closed", opens, closes);
		for (int i = 0; i < nc; i++) {
			VT_CHECK(!C[i].enabled, "counter %d counts on after the end", i);
		}
		double v, sh;
		int times;
		VT_CHECK(find("time (seconds)", &v, &sh, &times) && times == 1, "the time is reported %d times: %s", times, vt_quote(rep, 300));
		VT_CHECK(v > (double) total / 1e9 - 0.00501 - (double) total * 1e-21 && v < (double) total / 1e9 + 0.00501 + (double) total * 1e-21,
			 "%.2f seconds are reported, measured sections lasted %.4f", v, (double) total / 1e9);
		for (int i = 0; i < NEV; i++) {
			const char *name = sc_perf_hw[i].name;
			uint64_t type = sc_perf_hw[i].type, config = sc_perf_hw[i].config;
			for (size_t q = 0; q < sizeof(known) / sizeof(known[0]); q++) {
				if (!strcmp(known[q].name, name)) {
					type = known[q].type;
					config = known[q].config;
				}
			}
			struct cnt *c = NULL;
			for (int q = 0; q < nc; q++) {
				if (C[q].type == type && C[q].config == config) {
					VT_CHECK(!c, "event %s is opened twice", name);
					c = &C[q];
				}
			}
			VT_CHECK(c, "event %s is not measured (type %llu, config %llx)", name, (unsigned long long) type, (unsigned long long) config);
			VT_CHECK(find(name, &v, &sh, &times) && times == 1, "event %s is reported %d times", name, times);
			double want = (double) c->truth;
			if (c->run > 0 && c->run < c->en) {
				want = want * ((double) c->en / (double) c->run);
				vt_class("multiplexed");
			} else if (c->run == 0 && c->en > 0) {
				vt_class("never-counted");
			}
			double tol = 0.0051 + want * 1e-9;
			VT_CHECK(v > want - tol && v < want + tol, "%s is reported as %.2f, counted were %llu in %llu of %llu ns", name, v, (unsigned long long) c->truth,
				 (unsigned long long) c->run, (unsigned long long) c->en);
			if (c->en > 0) {
				double ws = 100.0 * (double) c->run / (double) c->en;
				VT_CHECK(sh > ws - 0.0052 && sh < ws + 0.0052, "%s was counted for %.2f%% of the time, reported %.2f%%", name, ws, sh);
			}
			h = vt_hash(h, c->value);
		}
		if (sections > 1) {
			vt_class("resumed");
		}
		if (m > 0) {
			vt_class("measured-again");
		}
		if (vt_want_sample() && sections > 1) {
			vt_sample("%d sections, %.2f s reported, %d counters of different shares all scaled as the kernel stand-in counted", (int) sections + run,
				  (double) total / 1e9, NEV);
		}
	}
	vt_state(h);
}
