/* Z03: what the process shares with everyone else in it (its environment,
 * directories, masks, signal setup, descriptors, the static results of the C
 * library ...) is the same after the library's work as before. */
#define STATE
#include "h_indep.c"
#include <arpa/inet.h>
#include <dirent.h>
#include <fenv.h>
#include <getopt.h>
#include <locale.h>
#include <signal.h>
#include <sched.h>
#include <stdio_ext.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include "sc_log.h"

/* ---- calls that change what all threads share, even if undone later ---- */
static bool in_work;
static const char *work_name = "";
static void changes(const char *what)
{
	if (in_work) {
		in_work = false;
		vt_fail("%s: %s() is called, which changes the state of the whole process", work_name, what);
	}
}
#define WRAP(ret, name, par, arg)                                                                                                                             \
	ret __real_##name par;                                                                                                                               \
	ret __wrap_##name par;                                                                                                                               \
	ret __wrap_##name par                                                                                                                                \
	{                                                                                                                                                    \
		changes(#name);                                                                                                                              \
		return __real_##name arg;                                                                                                                    \
	}
WRAP(mode_t, umask, (mode_t m), (m))
WRAP(int, chdir, (const char *p), (p))
WRAP(int, fchdir, (int f), (f))
WRAP(int, setenv, (const char *n, const char *v, int o), (n, v, o))
WRAP(int, unsetenv, (const char *n), (n))
WRAP(int, putenv, (char *n), (n))
WRAP(int, clearenv, (void), ())
WRAP(unsigned, alarm, (unsigned s), (s))
WRAP(int, setitimer, (int w, const struct itimerval *n, struct itimerval *o), (w, n, o))
WRAP(pid_t, fork, (void), ())
WRAP(int, system, (const char *c), (c))
WRAP(FILE *, popen, (const char *c, const char *m), (c, m))
WRAP(int, setrlimit, (int r, const struct rlimit *l), (r, l))
WRAP(void, srand, (unsigned s), (s))
WRAP(void, srandom, (unsigned s), (s))
WRAP(sighandler_t, signal, (int s, sighandler_t f), (s, f))
char *__real_setlocale(int c, const char *l);
char *__wrap_setlocale(int c, const char *l);
char *__wrap_setlocale(int c, const char *l)
{
	if (l != NULL) {
		changes("setlocale");
	}
	return __real_setlocale(c, l);
}
int __real_sigaction(int s, const struct sigaction *n, struct sigaction *o);
int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *o);
int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *o)
{
	if (n != NULL) {
		changes("sigaction");
	}
	return __real_sigaction(s, n, o);
}

/* ---- work of kinds that Z02 does not do ---- */
static int log_cb(void *arg, enum sc_log_level level, const char *fmt, va_list va)
{
	char t[100];
	struct ctx *c = arg;
	vsnprintf(t, sizeof(t), fmt, va);
	DS(t);
	D(level);
	return RB(9) == 0 ? -1 : 0;
}
static void w_log(struct ctx *c)
{
	char a[300], b[300], big[2000];
	static const char *const lv[] = {"DEBUG", "INFO", "WARN", "ERROR", "OFF", "nothing"};
	snprintf(a, sizeof(a), "%s/log.1", vt_tmpdir);
	snprintf(b, sizeof(b), "%s/log.2", vt_tmpdir);
	bool shown = RB(3) == 0;
	int was[2] = {-1, -1};
	D(sc_log_init());
	if (shown) { /* the standard streams lead nowhere meanwhile */
		int nowhere = open("/dev/null", O_WRONLY);
		fflush(stdout);
		for (int i = 0; i < 2; i++) {
			was[i] = dup(i + 1);
			dup2(nowhere, i + 1);
		}
		close(nowhere);
	}
	sc_log_set_stdout(shown);
	sc_log_set_thread_name(RB(2) ? "someone" : "");
	D(sc_log_set_level(lv[RB(6)]));
	switch (RB(4)) {
	case 0: D(sc_log_set_file("/nonexistent/a", "/nonexistent/b")); break;
	case 1: D(sc_log_set_file(NULL, NULL)); break;
	default: D(sc_log_set_file(a, b)); break;
	}
	if (RB(2)) {
		sc_log_set_callback(c, log_cb);
	}
	memset(big, 'x', sizeof(big));
	for (uint64_t n = 1 + RB(20); n > 0; n--) {
		switch (RB(4)) {
		case 0: sc_log_debug("%d", (int) RB(100)); break;
		case 1: sc_log_info("%.*s", (int) RB(sizeof(big)), big); break;
		case 2: sc_log_warn("%s", ""); break;
		default: sc_log_error("%.3f", (double) RB(1000) / 7); break;
		}
	}
	if (RB(40) == 0) { /* far enough for a change of files */
		char *l = vt_malloc(1 << 20);
		memset(l, 'l', (1 << 20) - 1);
		l[(1 << 20) - 1] = 0;
		D(sc_log_set_level("INFO"));
		for (int i = 0; i < 11; i++) {
			sc_log_error("%s", l);
		}
		vt_free(l);
	}
	D(sc_log_term());
	if (shown) {
		fflush(stdout);
		for (int i = 0; i < 2; i++) {
			dup2(was[i], i + 1);
			close(was[i]);
		}
		vt_class("log-shown");
	}
	unlink(a);
	unlink(b);
}
static void w_inet(struct ctx *c)
{
	struct sc_sock l, a, b;
	struct sc_sock_poll po;
	char t[200], port[16];
	bool v6 = RB(3) == 0, blocking = RB(2);
	const char *host = v6 ? "::1" : RB(2) ? "127.0.0.1" : "localhost";
	enum sc_sock_family f = v6 ? SC_SOCK_INET6 : SC_SOCK_INET;
	sc_sock_init(&l, 1, true, f);
	sc_sock_init(&a, 2, blocking, f);
	sc_sock_init(&b, 3, true, f);
	D(sc_sock_poll_init(&po));
	D(sc_sock_connect(&a, RB(2) ? "no such host" : "999.1.1.1", "1", NULL, NULL));
	DS(sc_sock_error(&a));
	if (sc_sock_listen(&l, host, "0") == 0 && sc_sock_local_str(&l, t, sizeof(t)) >= 0 && strrchr(t, ':') != NULL) {
		int rc;
		snprintf(port, sizeof(port), "%.6s", strrchr(t, ':') + 1);
		rc = sc_sock_connect(&a, host, port, RB(2) ? NULL : v6 ? "::1" : "127.0.0.1", NULL);
		if (rc == -1 && errno == EAGAIN) {
			sc_sock_poll_add(&po, &a.fdt, SC_SOCK_WRITE, &a);
			sc_sock_poll_wait(&po, 2000);
			sc_sock_poll_del(&po, &a.fdt, SC_SOCK_WRITE, &a);
			rc = sc_sock_finish_connect(&a);
		}
		D(rc);
		if (rc == 0 && sc_sock_accept(&l, &b) == 0) {
			sc_sock_remote_str(&b, t, sizeof(t));
			sc_sock_local_str(&a, t, sizeof(t));
			D(sc_sock_set_blocking(&b, false));
			sc_sock_set_rcvtimeo(&a, 1000);
			sc_sock_set_sndtimeo(&a, 1000);
			D(sc_sock_recv(&b, t, sizeof(t), 0));
			D(sc_sock_send(&a, "text", 4, 0));
			D(sc_sock_term(&b)); /* unread: a is reset */
			for (int i = 0; i < 4; i++) {
				D(sc_sock_send(&a, t, sizeof(t), MSG_NOSIGNAL) > 0);
			}
			DS(sc_sock_error(&a));
			vt_class("inet-connected");
		}
	}
	sc_sock_print(&a, t, sizeof(t));
	D(sc_sock_term(&a));
	D(sc_sock_term(&b));
	D(sc_sock_term(&l));
	D(sc_sock_poll_term(&po));
}
static void w_fail(struct ctx *c)
{
	struct sc_sock s;
	struct sc_mmap m;
	char t[300];
	D(sc_ini_parse_file(c, item, "/nonexistent/x.ini"));
	D(sc_ini_parse_file(c, item, vt_tmpdir));
	D(sc_ini_parse_string(c, item, "[broken\nkey\n= v\n"));
	D(sc_uri_create("no uri") == NULL);
	D(sc_uri_create(NULL) == NULL);
	D(sc_size_to_bytes("12x"));
	sc_sock_init(&s, 0, true, SC_SOCK_UNIX);
	snprintf(t, sizeof(t), "%s/none/none", vt_tmpdir);
	D(sc_sock_listen(&s, t, NULL));
	DS(sc_sock_error(&s));
	D(sc_sock_term(&s));
	D(sc_mmap_init(&m, vt_tmpdir, O_RDWR, PROT_READ, MAP_SHARED, 0, 4096));
	sc_mmap_term(&m);
	D(sc_mmap_init(&m, "/dev/null", O_RDWR, PROT_READ | PROT_WRITE, MAP_SHARED, 0, RB(2) ? 0 : 4096));
	sc_mmap_term(&m);
	snprintf(t, sizeof(t), "%s/lock", vt_tmpdir);
	D(sc_mmap_init(&m, t, O_RDWR | O_CREAT, PROT_READ, MAP_SHARED, RB(2) ? 1 : 0, 4096));
	sc_mmap_term(&m);
	unlink(t);
}

/* ---- the state ---- */
static char *strtok_next;
static struct tm *tm_p, tm_v;
static char *asc_p, asc_v[64], *ina_p, ina_v[64];
static uint64_t gen_next[3];
static int fd_pipe[2], nsnap;

struct snap {
	char cwd[300], locale[300], tz[100], name[20];
	mode_t mask;
	char **env;
	uint64_t envh, files, fds, sigs, limits, gopt, maps;
	sigset_t blocked, pending;
	stack_t alt;
	int round, except, cancel, type, prio, threads;
	long out, err, in, children;
	uint64_t proc, stdio, timers;
};

static uint64_t listing(const char *dir)
{
	uint64_t x = 0;
	DIR *d = opendir(dir);
	struct dirent *e;
	if (d == NULL) {
		vt_die("opendir(%s)", dir);
	}
	while ((e = readdir(d)) != NULL) {
		x += vt_hash_bytes(5, e->d_name, strlen(e->d_name));
	}
	closedir(d);
	return x;
}
static int threads(void)
{
	struct stat s;
	return stat("/proc/self/task", &s) == 0 ? (int) s.st_nlink - 2 : -1;
}
static void take(struct snap *s)
{
	struct sigaction sa;
	memset(s, 0, sizeof(*s));
	if (getcwd(s->cwd, sizeof(s->cwd)) == NULL) {
		strcpy(s->cwd, "gone");
	}
	snprintf(s->locale, sizeof(s->locale), "%s", setlocale(LC_ALL, NULL));
	s->mask = umask(022);
	umask(s->mask);
	s->env = environ;
	s->envh = 3;
	for (char **e = environ; e && *e; e++) {
		s->envh = vt_hash_bytes(vt_hash(s->envh, (uint64_t) (uintptr_t) *e), *e, strlen(*e));
	}
	s->files = listing(vt_tmpdir);
	s->fds = 7;
	for (int i = 0; i < 128; i++) {
		int f = fcntl(i, F_GETFD);
		if (f != -1) {
			s->fds = vt_hash(vt_hash(s->fds, (uint64_t) i), (uint64_t) f * 1000003 + (uint64_t) fcntl(i, F_GETFL));
		}
	}
	s->sigs = 9;
	for (int i = 1; i < 65; i++) {
		memset(&sa, 0, sizeof(sa));
		if (sigaction(i, NULL, &sa) == 0) {
			uint64_t m = 0;
			for (int k = 1; k < 65; k++) {
				m |= (uint64_t) (sigismember(&sa.sa_mask, k) == 1) << (k - 1);
			}
			s->sigs = vt_hash(vt_hash(s->sigs, (uint64_t) (uintptr_t) sa.sa_handler), (uint64_t) sa.sa_flags ^ m << 5);
		}
	}
	pthread_sigmask(SIG_BLOCK, NULL, &s->blocked);
	sigpending(&s->pending);
	sigaltstack(NULL, &s->alt);
	s->limits = 1;
	for (int i = 0; i < RLIMIT_NLIMITS; i++) {
		struct rlimit l;
		if (getrlimit(i, &l) == 0) {
			s->limits = vt_hash(vt_hash(s->limits, l.rlim_cur), l.rlim_max);
		}
	}
	s->gopt = vt_hash(vt_hash((uint64_t) optind, (uint64_t) opterr), vt_hash((uint64_t) optopt, (uint64_t) (uintptr_t) optarg));
	s->round = fegetround();
	pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &s->cancel);
	pthread_setcancelstate(s->cancel, NULL);
	pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &s->type);
	pthread_setcanceltype(s->type, NULL);
	s->prio = getpriority(PRIO_PROCESS, 0);
	pthread_getname_np(pthread_self(), s->name, sizeof(s->name));
	s->threads = threads();
	fflush(stdout);
	s->out = lseek(1, 0, SEEK_CUR);
	s->err = lseek(2, 0, SEEK_CUR);
	s->in = lseek(0, 0, SEEK_CUR);
	s->except = fegetexcept();
	s->stdio = vt_hash(vt_hash(__fbufsize(stdout) * 2 + (uint64_t) __flbf(stdout), __fbufsize(stderr) * 2 + (uint64_t) __flbf(stderr)), (uint64_t) stdout->_fileno * 8 + (uint64_t) stderr->_fileno);
	int sig = 0;
	prctl(PR_GET_PDEATHSIG, &sig);
	cpu_set_t cpus;
	CPU_ZERO(&cpus);
	sched_getaffinity(0, sizeof(cpus), &cpus);
	s->proc = vt_hash_bytes(vt_hash(vt_hash((uint64_t) prctl(PR_GET_DUMPABLE), (uint64_t) prctl(PR_GET_TIMERSLACK)), (uint64_t) prctl(PR_GET_NO_NEW_PRIVS) * 128 + (uint64_t) sig), &cpus, sizeof(cpus));
	s->proc = vt_hash(vt_hash(s->proc, (uint64_t) getpgrp()), vt_hash((uint64_t) getsid(0), (uint64_t) getuid() * 65536 + (uint64_t) geteuid() + (uint64_t) sched_getscheduler(0)));
	s->timers = 0;
	for (int i = 0; i < 3; i++) { /* real, virtual, profiling */
		struct itimerval it = {0};
		s->timers += getitimer((__itimer_which_t) i, &it) == 0 && (it.it_value.tv_sec || it.it_value.tv_usec || it.it_interval.tv_sec || it.it_interval.tv_usec);
	}
	siginfo_t si;
	s->children = waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT);
}

#define SAME(f, what) VT_CHECK(memcmp(&a->f, &b->f, sizeof(a->f)) == 0, "%s: %s", work_name, what)
static void compare(struct snap *a, struct snap *b)
{
	for (int i = 0; i < 3000 && b->threads > a->threads; i++) { /* a joined thread takes a moment to go */
		usleep(1000);
		b->threads = threads();
	}
	SAME(cwd, "the working directory is another one");
	SAME(locale, "the locale changed");
	SAME(mask, "the file creation mask changed");
	SAME(env, "the environment moved");
	SAME(envh, "the environment changed");
	SAME(files, "files are left behind or gone");
	SAME(fds, "descriptors are left open, gone or changed");
	SAME(sigs, "signals are handled in another way");
	SAME(blocked, "other signals are blocked");
	SAME(pending, "a signal is left pending");
	SAME(alt, "the signal stack changed");
	SAME(limits, "resource limits changed");
	SAME(gopt, "the state of getopt() changed");
	SAME(round, "the rounding mode changed");
	SAME(cancel, "cancellation is switched");
	SAME(type, "the kind of cancellation changed");
	SAME(prio, "the priority changed");
	SAME(name, "the caller's thread has another name");
	SAME(threads, "threads are left running");
	SAME(out, "something is printed to the standard output");
	SAME(err, "something is printed to the standard error output");
	SAME(in, "the position of the standard input moved");
	SAME(except, "floating point exceptions trap in another way");
	SAME(stdio, "the standard streams are buffered in another way");
	SAME(proc, "the process has another affinity, scheduling, group, user, or prctl() setting");
	SAME(timers, "an interval timer is left running");
	SAME(children, "a child process is left");
	VT_CHECK(b->children == -1, "%s: a child process is left", work_name);
}

/* other users of the C library in the middle of something */
static void gen(unsigned seed, uint64_t *v)
{
	unsigned short s48[3] = {1, 2, (unsigned short) seed};
	srand(seed);
	srandom(seed + 1);
	seed48(s48);
	(void) rand();
	(void) random();
	(void) lrand48();
	if (v) {
		v[0] = (uint64_t) rand();
		v[1] = (uint64_t) random();
		v[2] = (uint64_t) lrand48();
	}
}
static char tok_text[32];
static void others_begin(void)
{
	time_t t = (time_t) vt_below(2000000000);
	struct in_addr ia = {.s_addr = (in_addr_t) vt_rnd()};
	unsigned seed = (unsigned) vt_rnd();
	strcpy(tok_text, "one two,three");
	(void) strtok(tok_text, " ");
	tm_p = localtime(&t);
	tm_v = *tm_p;
	asc_p = ctime(&t);
	tm_p = localtime(&t);
	snprintf(asc_v, sizeof(asc_v), "%s", asc_p);
	ina_p = inet_ntoa(ia);
	snprintf(ina_v, sizeof(ina_v), "%s", ina_p);
	gen(seed, gen_next);
	gen(seed, NULL);
}
static void others_end(void)
{
	VT_CHECK(memcmp(tm_p, &tm_v, sizeof(tm_v)) == 0, "%s: a localtime() result in use is overwritten", work_name);
	VT_CHECK(strcmp(asc_p, asc_v) == 0, "%s: a ctime() result in use is overwritten", work_name);
	VT_CHECK(strcmp(ina_p, ina_v) == 0, "%s: an inet_ntoa() result in use is overwritten", work_name);
	strtok_next = strtok(NULL, ",");
	VT_CHECK(strtok_next != NULL && strcmp(strtok_next, "two") == 0, "%s: a strtok() in progress is disturbed", work_name);
	VT_CHECK((uint64_t) rand() == gen_next[0], "%s: the sequence of rand() is disturbed", work_name);
	VT_CHECK((uint64_t) random() == gen_next[1], "%s: the sequence of random() is disturbed", work_name);
	VT_CHECK((uint64_t) lrand48() == gen_next[2], "%s: the sequence of lrand48() is disturbed", work_name);
}

static const struct {
	const char *name;
	void (*fn)(struct ctx *);
} more[] = {{"log", w_log}, {"inet", w_inet}, {"failures", w_fail}};
#define NM ((int) (sizeof(more) / sizeof(more[0])))

void vt_setup(void)
{
	struct ctx c = {.r = {1}};
	sc_crc32_init();
	if (pipe(fd_pipe) != 0) {
		vt_die("pipe");
	}
	tzset();
	/* the very first use of each component, which may set something up for good */
	struct snap a, b;
	static char held[8192]; /* the buffers exist from the start */
	fflush(stdout);
	setvbuf(stdout, held, _IOFBF, sizeof(held));
	setvbuf(stderr, NULL, _IONBF, 0);
	work_name = "the first use";
	take(&a);
	in_work = true;
	c.d = 1;
	sc_log_init();
	sc_log_term();
	for (int i = 0; i < NW; i++) {
		work[i].fn(&c);
	}
	for (int i = 0; i < NM; i++) {
		more[i].fn(&c);
	}
	in_work = false;
	take(&b);
	compare(&a, &b);
}

void vt_case(uint64_t n)
{
	struct snap a, b;
	uint64_t h = 0;
	int k = 1 + (int) vt_below(6);
	/* settings an application may have made */
	static const char *const zones[] = {"UTC", "EST5EDT", "XYZ-5:30"};
	static const int sigs[] = {SIGPIPE, SIGUSR1, SIGCHLD, SIGALRM, SIGIO, SIGURG};
	struct sigaction dfl = {.sa_handler = SIG_DFL}, ign = {.sa_handler = SIG_IGN};
	sigset_t set, old;
	(void) n;
	noise_level = 0;
	setenv("TZ", zones[vt_below(3)], 1);
	tzset();
	mode_t mask = umask((mode_t) (vt_chance(1, 2) ? 022 : vt_below(0100)));
	sigemptyset(&set);
	for (int i = 0; i < 6; i++) {
		if (vt_chance(1, 4)) {
			sigaddset(&set, sigs[i]);
			vt_class("signals-blocked");
		}
		/* SIGPIPE keeps its default: nobody asked for it */
		sigaction(sigs[i], i > 0 && vt_chance(1, 4) ? &ign : &dfl, NULL);
	}
	pthread_sigmask(SIG_SETMASK, &set, &old);
	fesetround(vt_chance(1, 4) ? FE_UPWARD : FE_TONEAREST);
	if (setlocale(LC_ALL, vt_chance(1, 2) ? "C" : "C.UTF-8") == NULL) {
		setlocale(LC_ALL, "C");
	}
	optind = 1 + (int) vt_below(5);
	for (int i = 0; i < k; i++) {
		int w = (int) vt_below((uint64_t) (NW + NM));
		struct ctx c = {.r = {vt_rnd()}, .tid = 0, .d = 1};
		work_name = w < NW ? work[w].name : more[w - NW].name;
		vt_log("%s", work_name);
		others_begin();
		take(&a);
		in_work = true;
		(w < NW ? work[w].fn : more[w - NW].fn)(&c);
		in_work = false;
		take(&b);
		compare(&a, &b);
		others_end();
		vt_class(work_name);
		h = vt_hash(vt_hash(h, (uint64_t) w), c.d);
	}
	if (a.out >= 0) {
		vt_class("output-watched");
	}
	fesetround(FE_TONEAREST);
	pthread_sigmask(SIG_SETMASK, &old, NULL);
	umask(mask);
	vt_state(h);
	if (vt_want_sample()) {
		vt_sample("%d pieces of work, the last one %s: umask %o, TZ %s, %s locale, descriptors, signals, static results and output as before", k, work_name, a.mask, getenv("TZ"), a.locale);
	}
}
