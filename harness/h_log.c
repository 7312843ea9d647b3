/* G01 (MODE=1), G02 (MODE=2) and G03 (MODE=3): the logger with all its sinks
 * captured: descriptors 1 and 2 are files, log files live in the scratch
 * directory, the callback records what it is given. */
#include "vt.h"
#include "sc_log.h"
#define NOISE_ONLY
#include "sync.inc"
#include <fcntl.h>
#include <strings.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>

void __sanitizer_set_report_fd(void *fd) __attribute__((weak));

/* ------------------------------------------------------------ stand-ins */
static int f_fopen, f_rename, f_fclose, f_local; /* inject while noisy */
static int hit_fopen, hit_rename, hit_fclose, hit_local;
static bool cookie_next; /* the next open gives a stream that cannot write */
static int ck_mode; /* 0: writing fails, 1: at once, not when flushed, 2 and 3: its position cannot be told */
static int ck_id, ck_closed; /* the stream given last, how often it was closed */

/* a cookie is its number * 4 + mode */
static ssize_t ck_write(void *c, const char *b, size_t n)
{
	(void) b;
	if (((intptr_t) c & 3) >= 2) {
		return (ssize_t) n;
	}
	errno = ENOSPC;
	return 0;
}
static int ck_seek(void *c, off64_t *o, int w)
{
	(void) w;
	if (((intptr_t) c & 3) >= 2) {
		errno = ESPIPE;
		return -1;
	}
	*o = 0;
	return 0;
}
static int ck_close(void *c)
{
	ck_closed += (intptr_t) c >> 2 == ck_id;
	return 0;
}
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m)
{
	if (noisy && f_fopen) {
		hit_fopen++;
		errno = f_fopen;
		return NULL;
	}
	if (noisy && cookie_next) {
		cookie_next = false;
		ck_closed = 0;
		FILE *f = fopencookie((void *) (intptr_t) (++ck_id * 4 + ck_mode), m, (cookie_io_functions_t){NULL, ck_write, ck_seek, ck_close});
		if (f && ck_mode == 1) {
			setvbuf(f, NULL, _IONBF, 0);
		}
		return f;
	}
	return __real_fopen(p, m);
}
int __real_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b)
{
	if (noisy && f_rename) {
		hit_rename++;
		errno = f_rename;
		return -1;
	}
	if (strncmp(a, vt_tmpdir, strlen(vt_tmpdir)) != 0 || strncmp(b, vt_tmpdir, strlen(vt_tmpdir)) != 0) {
		vt_fail("a file outside the log directory is renamed: %s to %s", a, b);
	}
	return __real_rename(a, b);
}
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f)
{
	int rc = __real_fclose(f);
	if (noisy && f_fclose) {
		hit_fclose++;
		errno = f_fclose;
		return EOF;
	}
	return rc;
}
struct tm *__real_localtime_r(const time_t *t, struct tm *r);
struct tm *__wrap_localtime_r(const time_t *t, struct tm *r)
{
	if (noisy && f_local) {
		hit_local++;
		errno = EOVERFLOW;
		return NULL;
	}
	return __real_localtime_r(t, r);
}
/* the wall clock */
static bool wall_on;
static time_t wall;
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t)
{
	if (noisy && wall_on) {
		if (t) {
			*t = wall;
		}
		return wall;
	}
	return __real_time(t);
}
int __real_clock_gettime(clockid_t id, struct timespec *ts);
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
	if (noisy && wall_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
		ts->tv_sec = wall;
		ts->tv_nsec = 999999999;
		return 0;
	}
	return __real_clock_gettime(id, ts);
}
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	if (noisy && wall_on) {
		tv->tv_sec = wall;
		tv->tv_usec = 999999;
		return 0;
	}
	return __real_gettimeofday(tv, tz);
}
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	noise();
	int rc = __real_pthread_mutex_lock(m);
	noise();
	return rc;
}
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	noise();
	int rc = __real_pthread_mutex_unlock(m);
	noise();
	return rc;
}

/* ------------------------------------------------------------- captures */
static char p_out[512], p_err[512], p_a[512], p_b[512], p_pa[512], p_pb[512];
static int fd_out, fd_err, fd_full;
static const char *lname[] = {"DEBUG", "INFO", "WARN", "ERROR", "OFF"};

void vt_setup(void)
{
	if (__sanitizer_set_report_fd) {
		int fd = fcntl(2, F_DUPFD, 950);
		__sanitizer_set_report_fd((void *) (intptr_t) fd);
	}
	snprintf(p_out, sizeof(p_out), "%s/out", vt_tmpdir);
	snprintf(p_err, sizeof(p_err), "%s/errout", vt_tmpdir);
	snprintf(p_a, sizeof(p_a), "%s/a-cur", vt_tmpdir);
	snprintf(p_pa, sizeof(p_pa), "%s/a-prev", vt_tmpdir);
	snprintf(p_b, sizeof(p_b), "%s/b-cur", vt_tmpdir);
	snprintf(p_pb, sizeof(p_pb), "%s/b-prev", vt_tmpdir);
	fd_out = open(p_out, O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
	fd_err = open(p_err, O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
	fd_full = open("/dev/full", O_WRONLY | O_CLOEXEC);
	if (fd_out < 0 || fd_err < 0 || fd_full < 0 || dup2(fd_out, 1) < 0 || dup2(fd_err, 2) < 0) {
		vt_die("cannot capture the standard streams");
	}
}
static long fsize(const char *p)
{
	struct stat st;
	return stat(p, &st) == 0 ? (long) st.st_size : -1;
}
/* what a file holds from `off` on; NUL-terminated, own memory */
static char *slurp(const char *p, long off, long *n)
{
	int fd = open(p, O_RDONLY | O_CLOEXEC);
	struct stat st;
	*n = 0;
	if (fd < 0) {
		return NULL;
	}
	fstat(fd, &st);
	long want = st.st_size > off ? st.st_size - off : 0;
	char *b = vt_malloc((size_t) want + 1);
	long got = 0;
	while (got < want) {
		ssize_t r = pread(fd, b + got, (size_t) (want - got), off + got);
		if (r <= 0) {
			break;
		}
		got += r;
	}
	close(fd);
	b[got] = 0;
	*n = got;
	return b;
}
static void reset_files(void)
{
	fflush(stdout);
	fflush(stderr);
	if (ftruncate(fd_out, 0) != 0 || ftruncate(fd_err, 0) != 0) {
		vt_die("truncate");
	}
	unlink(p_a);
	unlink(p_b);
	unlink(p_pa);
	unlink(p_pb);
}
/* header "[date time][LEVEL][name] " */
static void check_header(const char *sink, const char *h, size_t n, int level, const char *name, time_t t0, time_t t1)
{
	char b[512], want[80];
	if (n >= sizeof(b)) {
		vt_fail("%s: %zu bytes before the text: %s", sink, n, vt_quote(h, n > 200 ? 200 : n));
	}
	memcpy(b, h, n);
	b[n] = 0;
	snprintf(want, sizeof(want), "[%s", lname[level]);
	VT_CHECK(strstr(b, want), "%s: the header of a %s message is %s", sink, lname[level], vt_quote(h, n));
	/* the name stands last, between brackets; longer names may be cut */
	size_t nl = strlen(name);
	if (nl > 31) {
		char *e = strchr(b + 1, '[');
		e = e ? strchr(e + 1, '[') : NULL;
		char *z = strrchr(b, ']');
		VT_CHECK(e && z && z - e - 1 >= 16 && (size_t) (z - e - 1) <= nl && memcmp(e + 1, name, (size_t) (z - e - 1)) == 0,
			 "%s: logged by the thread named %s, the header is %s", sink, vt_quote(name, nl), vt_quote(h, n));
	} else {
		char cut[48];
		snprintf(cut, sizeof(cut), "[%s]", name);
		VT_CHECK(strstr(b, cut), "%s: logged by the thread named %s, the header is %s", sink, vt_quote(name, nl), vt_quote(h, n));
	}
	if (t0) {
		/* [YYYY-MM-DD HH:MM:SS], local time */
		bool ok = false;
		for (time_t t = t0; !ok && t <= t1; t++) {
			struct tm tm;
			char w[80];
			if (!__real_localtime_r(&t, &tm) || strftime(w, sizeof(w), "[%Y-%m-%d %H:%M:%S]", &tm) == 0) {
				vt_die("localtime");
			}
			ok = strncmp(b, w, strlen(w)) == 0;
		}
		VT_CHECK(ok, "%s: logged at %lld..%lld, stamped %s", sink, (long long) t0, (long long) t1, vt_quote(h, n));
	}
}

#if MODE == 1
/* ================================================================= G01 */
static struct {
	int calls;
	void *arg;
	int level, n;
	int ret;
} cbr;
static char cb_text[300000];
static int cb_rec(void *arg, int level, const char *fmt, va_list va, int which)
{
	(void) which;
	cbr.calls++;
	cbr.arg = arg;
	cbr.level = level;
	cbr.n = vsnprintf(cb_text, sizeof(cb_text), fmt, va);
	return cbr.ret;
}
static int which_cb;
static int cb0(void *arg, enum sc_log_level l, const char *f, va_list va)
{
	which_cb = 0;
	return cb_rec(arg, l, f, va, 0);
}
static int cb1(void *arg, enum sc_log_level l, const char *f, va_list va)
{
	which_cb = 1;
	return cb_rec(arg, l, f, va, 1);
}
static char expect[300000];
static int expect_n;
#ifdef SC_LOG_PRINT_FILE_NAME
#define PRE(ln) snprintf(expect, sizeof(expect), "(h_log.c:%d) ", ln)
#else
#define PRE(ln) 0
#endif
#define LOG(level, rc, ...)                                                    \
	do {                                                                   \
		expect_n = PRE(__LINE__);                                      \
		expect_n += snprintf(expect + expect_n, sizeof(expect) - (size_t) expect_n, __VA_ARGS__); \
		noisy = true;                                                  \
		switch (level) {                                               \
		case 0: rc = sc_log_debug(__VA_ARGS__); break;                 \
		case 1: rc = sc_log_info(__VA_ARGS__); break;                  \
		case 2: rc = sc_log_warn(__VA_ARGS__); break;                  \
		default: rc = sc_log_error(__VA_ARGS__); break;                \
		}                                                              \
		noisy = false;                                                 \
	} while (0)

static char big[260000];
static const char *mktext(size_t n, bool wild)
{
	for (size_t i = 0; i < n; i++) {
		big[i] = wild ? (char) vt_range(1, 255) : (char) ('a' + i % 26);
	}
	if (wild && n > 3 && vt_chance(1, 3)) {
		memcpy(big + vt_below(n - 2), "%s%n", n > 6 ? 4 : 2);
	}
	big[n] = 0;
	return big;
}
struct st {
	int level;
	bool out, file, cookie, cb;
	int cbn;
	void *arg;
	char name[200];
	int cur; /* 0 = A, 1 = B */
	long o_out, o_err, o_a, o_b;
	uint64_t h;
};
static void mark(struct st *s)
{
	fflush(NULL);
	s->o_out = fsize(p_out);
	s->o_err = fsize(p_err);
	s->o_a = fsize(p_a);
	s->o_b = fsize(p_b);
}
static void sink_check(const char *sink, const char *path, long from, bool want, int level, struct st *s, time_t t0, time_t t1)
{
	long n;
	char *b = slurp(path, from < 0 ? 0 : from, &n);
	if (!want) {
		VT_CHECK(n == 0, "%s gets %s although it is %s", sink, vt_quote(b, (size_t) (n > 100 ? 100 : n)),
			 level < s->level ? "below the level" : "not its message");
	} else {
		VT_CHECK(n >= expect_n && memcmp(b + n - expect_n, expect, (size_t) expect_n) == 0, "%s gets %s instead of header and %s", sink,
			 vt_quote(b, (size_t) (n > 300 ? 300 : n)), vt_quote(expect, (size_t) (expect_n > 200 ? 200 : expect_n)));
		check_header(sink, b, (size_t) (n - expect_n), level, s->name, t0, t1);
	}
	vt_free(b);
}

static void one_message(struct st *s)
{
	int level = (int) vt_below(4), rc = 77, fault = vt_chance(1, 6) ? (int) vt_range(1, 3) : 0;
	bool pass = level >= s->level;
	size_t len = vt_chance(1, 12) ? (size_t) vt_range(3000, 100000) : (size_t) vt_size(300);
	time_t t0, t1;
	const char *t;
	mark(s);
	memset(&cbr, 0, sizeof(cbr));
	which_cb = -1;
	if (fault == 1) { /* the standard stream cannot be written */
		if (level != 3) {
			setvbuf(stdout, NULL, _IONBF, 0);
		}
		dup2(fd_full, level == 3 ? 2 : 1);
	} else if (fault == 2) {
		cbr.ret = vt_chance(1, 2) ? -1 : 5;
	} else if (fault == 3) {
		f_local = 1;
		hit_local = 0;
	}
	wall_on = vt_chance(1, 2);
	if (wall_on) {
		static const time_t step[] = {0, 1, -1, 59, 60, 61, 3599, 3600, 86399, 86400, -86400, 31 * 86400, 365 * 86400};
		switch ((int) vt_below(5)) {
		case 0: wall = (time_t) vt_range(946684800, 4102444800); break;             /* 2000..2100 */
		case 1: wall = (time_t) vt_below(2) * 0x80000000LL + (time_t) vt_below(0x80000000ULL); break;
		case 2: wall = 2147483647 + (time_t) vt_range(-100000, 100000); break;      /* past 32 bits */
		case 3: wall = 253370764800 - (time_t) vt_below(1ULL << (int) vt_range(1, 37)) - 86400; break; /* up to the year 9999 */
		default: wall += step[vt_below(13)]; break;
		}
		if (wall < 86400) {
			wall = 86400 + (time_t) vt_below(100000);
		}
		vt_class(wall > 0xffffffff ? "far-future" : "clock");
	}
	t0 = wall_on ? wall : __real_time(NULL);
	int style = (int) vt_below(9);
	switch (style) {
	case 0: t = mktext(len, true); LOG(level, rc, "%s\n", t); break;
	case 1: t = mktext(len, false); LOG(level, rc, "%d:%s|%ld", (int) vt_r.s, t, (long) len); break;
	case 2: LOG(level, rc, "just text"); break;
	case 3: t = mktext(len, true); LOG(level, rc, "%.*s%%%5d|%-10s|%c\n", (int) (len / 2), t, -42, "left", '\n'); break;
	case 4: LOG(level, rc, "%llu %lld %p %x %5.3f\n", (unsigned long long) vt_r.s, (long long) vt_r.s, (void *) &len, (unsigned) len, 1.0 / 3); break;
	case 5: LOG(level, rc, "100%%\n"); break;
	case 6: LOG(level, rc, "%s", ""); vt_class("empty-message"); break;
	case 7: { /* a dozen values: some travel in registers, some do not */
		int a = (int) vt_rnd(), w = (int) vt_range(-40, 40);
		double d = (double) (int64_t) vt_rnd() / 7, e = 1e300 / (double) (1 + vt_below(9));
		LOG(level, rc, "%d %f %d %e %d %hhd %g %*d %zu %jd %c %.3s %a %lld %Lf\n", a, d, a ^ 1, e, -7, (signed char) a, d / 3, w, a, len, (intmax_t) ~a, 'z', "abcdef", e,
		    (long long) a * 1000003, (long double) d);
		break;
	}
	default: t = mktext(len, true); LOG(level, rc, "[%s][INFO][x]\n%s\n", "", t); break;
	}
	/* time() lags the precise clock by up to a tick of the kernel, so a stamp taken from either lies between them */
	struct timespec late;
	__real_clock_gettime(CLOCK_REALTIME, &late);
	t1 = wall_on ? wall : late.tv_sec;
	f_local = 0;
	if (fault == 1) {
		dup2(level == 3 ? fd_err : fd_out, level == 3 ? 2 : 1);
		if (level != 3) {
			clearerr(stdout);
			setvbuf(stdout, NULL, _IOFBF, 4096);
		} else {
			clearerr(stderr);
		}
	}
	fflush(NULL);
	bool local_hit = fault == 3 && hit_local > 0;
	bool io_out = !(fault == 1) && !local_hit;
	vt_log("%s message of %d bytes (style %d)%s -> %d", lname[level], expect_n, style,
	       fault == 1 ? " with a failing stream" : fault == 2 ? " with a failing callback" : fault == 3 ? " with a failing clock" : "", rc);
	s->h = vt_hash(s->h, (uint64_t) (level * 100 + style * 10 + fault));
	/* standard output or error */
	bool to_std = pass && s->out;
	if (io_out) {
		sink_check("standard output", p_out, s->o_out, to_std && level != 3, level, s, t0, t1);
		sink_check("standard error", p_err, s->o_err, to_std && level == 3, level, s, t0, t1);
	} else if (!to_std) {
		sink_check("standard output", p_out, s->o_out, false, level, s, t0, t1);
		sink_check("standard error", p_err, s->o_err, false, level, s, t0, t1);
	}
	/* file */
	bool to_file = pass && s->file && !s->cookie;
	if (!local_hit || !to_file) {
		sink_check("log file A", p_a, s->o_a, to_file && s->cur == 0, level, s, t0, t1);
		sink_check("log file B", p_b, s->o_b, to_file && s->cur == 1, level, s, t0, t1);
	}
	/* callback */
	if (pass && s->cb) {
		VT_CHECK(cbr.calls == 1, "the callback is called %d times for one message", cbr.calls);
		VT_CHECK(which_cb == s->cbn && cbr.arg == s->arg, "the callback set before is called, or gets another argument");
		VT_CHECK(cbr.level == level, "the callback of a %s message gets level %d", lname[level], cbr.level);
		VT_CHECK(cbr.n == expect_n && memcmp(cb_text, expect, (size_t) expect_n) == 0, "the callback's text is %s instead of %s",
			 vt_quote(cb_text, cbr.n > 200 ? 200 : (size_t) cbr.n), vt_quote(expect, (size_t) (expect_n > 200 ? 200 : expect_n)));
		vt_class("to-callback");
	} else {
		VT_CHECK(cbr.calls == 0, "the callback is called for a message %s", pass ? "after it was taken away" : "below the level");
	}
	/* verdict */
	bool failed = pass && ((fault == 1 && s->out) || (fault == 2 && s->cb) || (local_hit && (s->out || s->file)));
	if (pass && s->file && s->cookie && ck_mode < 2 && expect_n > 70000) {
		failed = true;
		vt_class("failing-file");
	}
	if (failed) {
		VT_CHECK(rc != 0, "a message a sink could not take is reported as logged");
		vt_class(fault == 1 ? "failing-stream" : fault == 2 ? "failing-callback" : "failing-clock");
		if (to_file || (s->cb && pass)) {
			vt_class("others-after-failure");
		}
	} else if (!(s->file && s->cookie)) {
		VT_CHECK(rc == 0, "a message every sink took is reported as failed (%d)", rc);
	}
	if (!pass) {
		vt_class("below-level");
	} else if (!to_std && !s->file && !s->cb) {
		vt_class("no-sink");
	}
	if (to_std) {
		vt_class("to-standard-streams");
	}
	if (to_file) {
		vt_class("to-file");
	}
	if (expect_n > 2000) {
		vt_class("long-text");
	}
}

static void set_level(struct st *s)
{
	static const char *bad[] = {"", "INF", "INFOO", "DEBUG ", " WARN", "nope", "OF", "OFFF", "\xff\xfe", "ERRO", "errorr", "1", "D", "wARNn", "TRACE"};
	char b[16];
	int rc;
	if (vt_chance(1, 3)) {
		const char *x = bad[vt_below(sizeof(bad) / sizeof(bad[0]))];
		rc = sc_log_set_level(x);
		VT_CHECK(rc < 0, "level %s is accepted", vt_quote(x, strlen(x)));
		vt_class("level-refused");
		vt_log("set_level(%s) -> %d", x, rc);
		return;
	}
	int l = vt_chance(1, 3) ? 0 : (int) vt_below(5);
	strcpy(b, lname[l]);
	for (char *c = b; *c; c++) {
		if (vt_chance(1, 2)) {
			*c = (char) (*c | 0x20);
		}
	}
	rc = sc_log_set_level(b);
	VT_CHECK(rc == 0, "level %s is refused", b);
	s->level = l;
	vt_log("set_level(%s)", b);
}
static void set_file(struct st *s)
{
	int rc, how = (int) vt_below(10);
	char lp[600];
	mark(s);
	errno = 0;
	noisy = true;
	if (how < 5) {
		s->cur = (int) vt_below(2);
		rc = sc_log_set_file(s->cur ? p_pb : p_pa, s->cur ? p_b : p_a);
		noisy = false;
		VT_CHECK(rc == 0, "setting a log file fails: %d, errno %d", rc, errno);
		s->file = true;
		s->cookie = false;
		vt_log("set_file(%c)", s->cur ? 'B' : 'A');
		fflush(NULL);
		/* opening may start a new line, nothing else */
		long n, off = s->cur ? s->o_b : s->o_a;
		char *b = slurp(s->cur ? p_b : p_a, off < 0 ? 0 : off, &n);
		VT_CHECK(b && n <= 1 && (n == 0 || b[0] == '\n'), "opening the log writes %s", b ? vt_quote(b, (size_t) n) : "no file");
		vt_free(b);
		return;
	}
	if (how < 7) {
		rc = how == 5 ? sc_log_set_file(NULL, NULL) : vt_chance(1, 2) ? sc_log_set_file(NULL, p_a) : sc_log_set_file(p_pa, NULL);
		noisy = false;
		VT_CHECK(rc == 0, "taking the log file away fails");
		s->file = false;
		vt_log("set_file(NULL)");
		vt_class("file-off");
		return;
	}
	if (how == 7) {
		cookie_next = true;
		ck_mode = (int) vt_below(4);
		ck_closed = 0;
		rc = sc_log_set_file(p_pa, p_a);
		int ce = errno, mode = ck_mode;
		noisy = false;
		bool used = !cookie_next;
		cookie_next = false;
		vt_log("set_file(a file that cannot be written) -> %d", rc);
		if (!used) { /* opened in another way: an ordinary file */
			s->cur = 0;
			s->file = rc == 0;
			s->cookie = false;
			return;
		}
		if (rc != 0) {
			VT_CHECK(rc == -1 && ce != 0, "a log file that fails when opened gives %d, errno %d", rc, ce);
			VT_CHECK(ck_closed == 1, "a log file that fails when opened is closed %d times", ck_closed);
			vt_class(mode == 1 ? "first-write-fails" : "position-fails");
		}
		s->file = s->cookie = rc == 0;
		return;
	}
	if (how == 8) {
		f_fopen = vt_chance(1, 2) ? EMFILE : EACCES;
		hit_fopen = 0;
		rc = sc_log_set_file(p_pa, p_a);
		noisy = false;
		f_fopen = 0;
		int e = errno;
		vt_log("set_file with a failing open -> %d", rc);
		if (!hit_fopen) {
			s->cur = 0;
			s->file = rc == 0;
			s->cookie = false;
			return;
		}
		VT_CHECK(rc == -1, "a log file that cannot be opened gives %d", rc);
		VT_CHECK(e != 0, "a log file that cannot be opened leaves errno 0");
		s->file = false;
		vt_class("open-refused");
		return;
	}
	/* a path longer than any limit, or in a directory that is not there */
	if (vt_chance(1, 2)) {
		memset(lp, 'x', sizeof(lp));
		lp[vt_chance(1, 2) ? 300 : 599] = 0;
		rc = vt_chance(1, 2) ? sc_log_set_file(lp, p_a) : sc_log_set_file(p_pa, lp);
	} else {
		snprintf(lp, sizeof(lp), "%s/none/x", vt_tmpdir);
		rc = sc_log_set_file(p_pa, lp);
	}
	noisy = false;
	int e = errno;
	VT_CHECK(rc == -1 && e != 0, "an impossible log file gives %d, errno %d", rc, e);
	s->file = false;
	vt_log("set_file(impossible)");
	vt_class("path-refused");
}
static void init(struct st *s)
{
	int rc = sc_log_init();
	VT_CHECK(rc == 0, "init gives %d", rc);
	s->level = 1;
	s->out = true;
	s->file = s->cookie = s->cb = false;
	vt_log("init");
}
static void *scenario(void *p)
{
	struct st *s = p;
	int steps = (int) vt_range(3, 24);
	int fds = vt_fd_count();
	init(s);
	for (int i = 0; i < steps; i++) {
		int what = (int) vt_below(20);
		s->h = vt_hash(s->h, (uint64_t) what);
		if (what < 10) {
			one_message(s);
		} else if (what < 12) {
			set_level(s);
		} else if (what == 12) {
			s->out = vt_chance(2, 3);
			sc_log_set_stdout(s->out);
			vt_log("set_stdout(%d)", s->out);
		} else if (what < 16) {
			set_file(s);
		} else if (what == 16) {
			s->cb = vt_chance(3, 4);
			s->cbn = (int) vt_below(2);
			s->arg = vt_chance(1, 4) ? NULL : (void *) (uintptr_t) vt_rnd();
			sc_log_set_callback(s->arg, s->cb ? s->cbn ? cb1 : cb0 : NULL);
			vt_log("set_callback(%s)", s->cb ? s->cbn ? "1" : "0" : "NULL");
		} else if (what < 19) {
			int n = vt_chance(1, 5) ? (int) vt_range(32, 150) : (int) vt_below(32);
			for (int k = 0; k < n; k++) {
				s->name[k] = vt_chance(1, 8) ? "%s .:]"[vt_below(6)] : (char) ('a' + vt_below(26));
			}
			s->name[n] = 0;
			sc_log_set_thread_name(s->name);
			vt_log("set_thread_name(%s)", s->name);
			vt_class(n > 31 ? "long-name" : n == 0 ? "empty-name" : "named");
		} else {
			/* a new start has the defaults again */
			int rc = sc_log_term();
			VT_CHECK(rc == 0 || s->cookie, "term gives %d", rc);
			fflush(NULL);
			VT_CHECK(sc_log_term() < 0, "a second term succeeds");
			VT_CHECK(vt_fd_count() == fds, "term leaves %d descriptors", vt_fd_count() - fds);
			init(s);
			vt_class("restarted");
		}
	}
	one_message(s);
	int rc = sc_log_term();
	VT_CHECK(rc == 0 || s->cookie, "term gives %d", rc);
	VT_CHECK(vt_fd_count() == fds, "term leaves %d descriptors", vt_fd_count() - fds);
	return NULL;
}
void vt_case(uint64_t cn)
{
	static struct st s;
	pthread_t t;
	(void) cn;
	memset(&s, 0, sizeof(s));
	strcpy(s.name, "Thread");
	reset_files();
	if (vt_chance(1, 50)) { /* wherever in the world */
		static const char *zone[] = {"UTC0", "AAA-5:45", "BBB+3:30", "CCC-14", "DDD+12", "EEE-0:01", "FFF+11:59:30"};
		setenv("TZ", zone[vt_below(7)], 1);
		tzset();
		vt_class("time-zone");
	}
	/* a fresh thread has the default name */
	if (pthread_create(&t, NULL, scenario, &s) != 0) {
		vt_die("pthread_create");
	}
	pthread_join(t, NULL);
	vt_state(s.h);
	if (vt_want_sample()) {
		vt_sample("a history of messages and reconfigurations ending with level %s, stdout %d, file %d, callback %d: every sink held exactly its messages",
			  lname[s.level], s.out, s.file, s.cb);
	}
}
#endif

#if MODE == 2 || MODE == 3
/* a framed message: \x02 thread . number . level . name . payload \x03 */
static char pattern[3500000];
static void pattern_init(void)
{
	for (size_t i = 0; i < sizeof(pattern); i++) {
		pattern[i] = (char) ('!' + (i * 7 + i / 90) % 90);
	}
}
struct rec {
	int th, no, level, len;
	char name[48];
	const char *hdr;
	size_t hdrn;
	size_t size; /* header and text */
};
static int parse_one(const char *sink, const char *b, long n, long at, struct rec *r)
{
	/* returns bytes taken; anything that is not a whole message fails */
	const char *x = memchr(b + at, 2, (size_t) (n - at));
	int used = 0;
	char head[128];
	if (!x) {
		vt_fail("%s: %s is not a message", sink, vt_quote(b + at, (size_t) (n - at > 200 ? 200 : n - at)));
	}
	r->hdr = b + at;
	r->hdrn = (size_t) (x - (b + at));
	size_t hn = (size_t) (b + n - x - 1) < sizeof(head) - 1 ? (size_t) (b + n - x - 1) : sizeof(head) - 1;
	memcpy(head, x + 1, hn); /* sscanf measures its whole input */
	head[hn] = 0;
	if (sscanf(head, "%d.%d.%d.%d.%47[^.].%n", &r->th, &r->no, &r->level, &r->len, r->name, &used) != 5 || used == 0) {
		vt_fail("%s: torn message: %s", sink, vt_quote(b + at, (size_t) (n - at > 200 ? 200 : n - at)));
	}
	const char *pl = x + 1 + used;
	long left = b + n - pl;
	if (r->len < 0 || left < r->len + 2 || memcmp(pl, pattern + r->no % 1000, (size_t) r->len) != 0 || pl[r->len] != 3 || pl[r->len + 1] != '\n') {
		vt_fail("%s: message %d of thread %d is torn: %s", sink, r->no, r->th, vt_quote(b + at, (size_t) (n - at > 300 ? 300 : n - at)));
	}
	r->size = (size_t) (pl + r->len + 2 - (b + at));
	check_header(sink, r->hdr, r->hdrn, r->level, r->name, 0, 0);
	return (int) r->size;
}
#define FMT "\x02%d.%d.%d.%d.%s.%.*s\x03\n"
static int emit(int th, int no, int level, int len, const char *name)
{
	int rc;
	noisy = true;
	switch (level) {
	case 0: rc = sc_log_debug(FMT, th, no, level, len, name, len, pattern + no % 1000); break;
	case 1: rc = sc_log_info(FMT, th, no, level, len, name, len, pattern + no % 1000); break;
	case 2: rc = sc_log_warn(FMT, th, no, level, len, name, len, pattern + no % 1000); break;
	default: rc = sc_log_error(FMT, th, no, level, len, name, len, pattern + no % 1000); break;
	}
	noisy = false;
	return rc;
}
#endif

#if MODE == 2
/* ================================================================= G02 */
#define MT 6
#define MM 400
static int nt, nm, maxlen;
static struct {
	int out, err, a, b, cb; /* how often seen */
	int level;
	bool sent;
} seen[MT][MM];
static int in_cb;
static struct cbrec {
	int th, no, level, arg;
} cbl[MT * MM];
static int ncb; /* plain: protected by the logger's own exclusion */
static int cbargs[2];
static int cb_common(void *arg, int level, const char *fmt, va_list va, int which)
{
	char b[256];
	int th, no, lv, n;
	bool was = noisy;
	if (__atomic_exchange_n(&in_cb, 1, __ATOMIC_RELAXED) != 0) {
		vt_fail("the callback is entered by two threads at once");
	}
	if (arg != &cbargs[which]) {
		vt_fail("callback %d gets the argument of the other one", which);
	}
	n = vsnprintf(b, sizeof(b), fmt, va);
	if (n < 0 || sscanf(b + 1, "%d.%d.%d", &th, &no, &lv) != 3 || lv != level || th < 0 || th >= MT || no < 0 || no >= MM) {
		vt_fail("the callback gets level %d and %s", level, vt_quote(b, strlen(b)));
	}
	cbl[ncb].th = th;
	cbl[ncb].no = no;
	cbl[ncb].level = level;
	cbl[ncb].arg = which;
	noise();
	ncb++;
	noisy = was;
	__atomic_store_n(&in_cb, 0, __ATOMIC_RELAXED);
	return 0;
}
static int cb0(void *arg, enum sc_log_level l, const char *f, va_list va) { return cb_common(arg, l, f, va, 0); }
static int cb1(void *arg, enum sc_log_level l, const char *f, va_list va) { return cb_common(arg, l, f, va, 1); }

static bool r_level, r_file, r_cb, r_out, r_named, rotating;
static int go, running;

static void *logger(void *p)
{
	int th = (int) (intptr_t) p;
	char name[48] = "Thread";
	tl_r.s = vt_mix(vt_r.s ^ (uint64_t) th * 977);
	while (!__atomic_load_n(&go, __ATOMIC_RELAXED)) {
		sched_yield();
	}
	for (int i = 0; i < nm; i++) {
		if (r_named && vt_below_r(&tl_r, i == 0 ? 1 : 12) == 0) {
			snprintf(name, sizeof(name), "t%d-%d%.*s", th, i, (int) vt_below_r(&tl_r, 20), "xxxxxxxxxxxxxxxxxxxxxx");
			noisy = true;
			sc_log_set_thread_name(name);
			noisy = false;
		}
		int level = r_level ? (int) vt_below_r(&tl_r, 4) : 1 + (int) vt_below_r(&tl_r, 3);
		seen[th][i].level = level;
		seen[th][i].sent = true;
		int rc = emit(th, i, level, (int) vt_below_r(&tl_r, (uint64_t) maxlen + 1), name);
		if (rc != 0) {
			vt_fail("a message every sink took is reported as failed (%d)", rc);
		}
		noise();
	}
	__atomic_sub_fetch(&running, 1, __ATOMIC_RELAXED);
	return NULL;
}
static void *changer(void *p)
{
	static const char *lv[] = {"debug", "INFO", "Warn"};
	tl_r.s = vt_mix(vt_r.s ^ (uint64_t) (uintptr_t) p * 31337);
	while (!__atomic_load_n(&go, __ATOMIC_RELAXED)) {
		sched_yield();
	}
	while (__atomic_load_n(&running, __ATOMIC_RELAXED) > 0) {
		int k;
		noisy = true;
		switch (vt_below_r(&tl_r, 5)) {
		case 0:
			if (r_level && sc_log_set_level(lv[vt_below_r(&tl_r, 3)]) != 0) {
				vt_fail("a level is refused");
			}
			break;
		case 1:
			k = (int) vt_below_r(&tl_r, 2);
			if (r_file && sc_log_set_file(k ? p_pb : p_pa, k ? p_b : p_a) != 0) {
				vt_fail("a log file is refused");
			}
			break;
		case 2:
			k = (int) vt_below_r(&tl_r, 2);
			if (r_cb) {
				sc_log_set_callback(&cbargs[k], k ? cb1 : cb0);
			}
			break;
		case 3:
			if (r_out) {
				sc_log_set_stdout(vt_below_r(&tl_r, 2));
			}
			break;
		default:
			if (r_named) {
				sc_log_set_thread_name("changer");
			}
			break;
		}
		noisy = false;
		delay_us((unsigned) vt_below_r(&tl_r, 200));
	}
	return NULL;
}
static void collect(const char *sink, const char *p1, const char *p2, size_t field, bool tail)
{
	int last[MT];
	bool any[MT];
	for (int i = 0; i < MT; i++) {
		last[i] = -1;
		any[i] = false;
	}
	for (int k = 0; k < 2; k++) {
		long n = 0, at = 0;
		char *b = (k ? p2 : p1) ? slurp(k ? p2 : p1, 0, &n) : NULL;
		struct rec r;
		if (!b) {
			continue;
		}
		while (at < n) {
			if (b[at] == '\n') { /* written when the file was opened */
				at++;
				continue;
			}
			at += parse_one(sink, b, n, at, &r);
			VT_CHECK(r.th >= 0 && r.th < nt && r.no >= 0 && r.no < nm, "%s: message %d of thread %d was never logged", sink, r.no, r.th);
			VT_CHECK(r.no > last[r.th], "%s: message %d of thread %d comes after its message %d", sink, r.no, r.th, last[r.th]);
			VT_CHECK(!tail || !any[r.th] || r.no == last[r.th] + 1, "%s: messages of thread %d missing between %d and %d", sink, r.th, last[r.th], r.no);
			VT_CHECK(r.level == seen[r.th][r.no].level, "%s: message %d of thread %d has level %d, logged with %d", sink, r.no, r.th, r.level,
				 seen[r.th][r.no].level);
			last[r.th] = r.no;
			any[r.th] = true;
			(*(int *) ((char *) &seen[r.th][r.no] + field))++;
		}
		vt_free(b);
	}
	if (tail) {
		for (int i = 0; i < nt; i++) {
			VT_CHECK(!any[i] || last[i] == nm - 1, "%s: the newest messages of thread %d are missing after rotation", sink, i);
		}
	}
}
void vt_case(uint64_t cn)
{
	pthread_t t[MT], c[2];
	int nc = (int) vt_below(3);
	uint64_t h = 0;
	(void) cn;
	if (!pattern[0]) {
		pattern_init();
	}
	reset_files();
	memset(seen, 0, sizeof(seen));
	ncb = 0;
	rotating = vt_chance(1, 10);
	nt = (int) vt_range(2, MT);
	nm = rotating ? (int) vt_range(20, 60) : (int) vt_range(5, vt_chance(1, 8) ? MM : 60);
	maxlen = rotating ? 60000 : nm <= 60 && vt_chance(1, 4) ? 5000 : 120; /* together below the rotation size */
	r_level = !rotating && vt_chance(1, 2);
	r_file = !rotating && vt_chance(1, 2);
	r_cb = vt_chance(1, 2);
	r_out = vt_chance(1, 3);
	r_named = vt_chance(2, 3);
	noise_level = (int) vt_below(4);
	if (nc == 0) {
		r_level = r_file = r_cb = r_out = false;
	}
	VT_CHECK(sc_log_init() == 0, "init fails");
	sc_log_set_callback(&cbargs[0], cb0);
	VT_CHECK(sc_log_set_file(p_pa, p_a) == 0, "set_file fails");
	if (rotating) {
		sc_log_set_stdout(false);
		r_out = false;
	}
	go = 0;
	running = nt;
	for (int i = 0; i < nt; i++) {
		if (pthread_create(&t[i], NULL, logger, (void *) (intptr_t) i) != 0) {
			vt_die("pthread_create");
		}
	}
	for (int i = 0; i < nc; i++) {
		if (pthread_create(&c[i], NULL, changer, (void *) (intptr_t) (i + 100)) != 0) {
			vt_die("pthread_create");
		}
	}
	__atomic_store_n(&go, 1, __ATOMIC_RELAXED);
	for (int i = 0; i < nt; i++) {
		pthread_join(t[i], NULL);
	}
	for (int i = 0; i < nc; i++) {
		pthread_join(c[i], NULL);
	}
	VT_CHECK(sc_log_term() == 0, "term fails");
	fflush(NULL);
	vt_log("%d threads x %d messages up to %d bytes, %d changers (level %d file %d callback %d stdout %d names %d), noise %d", nt, nm, maxlen, nc, r_level,
	       r_file, r_cb, r_out, r_named, noise_level);
	collect("standard output", p_out, NULL, offsetof(__typeof__(seen[0][0]), out), false);
	collect("standard error", p_err, NULL, offsetof(__typeof__(seen[0][0]), err), false);
	collect("log file A", p_pa, p_a, offsetof(__typeof__(seen[0][0]), a), rotating);
	collect("log file B", p_pb, p_b, offsetof(__typeof__(seen[0][0]), b), false);
	int last[MT], switches = 0;
	memset(last, -1, sizeof(last));
	for (int i = 0; i < ncb; i++) {
		VT_CHECK(cbl[i].no > last[cbl[i].th], "callback: message %d of thread %d comes after its message %d", cbl[i].no, cbl[i].th, last[cbl[i].th]);
		last[cbl[i].th] = cbl[i].no;
		VT_CHECK(cbl[i].level == seen[cbl[i].th][cbl[i].no].level, "callback: level of another message");
		seen[cbl[i].th][cbl[i].no].cb++;
		if (i > 0 && cbl[i].th != cbl[i - 1].th) {
			switches++;
		}
		h = vt_hash(h, (uint64_t) cbl[i].th);
	}
	for (int i = 0; i < nt; i++) {
		for (int k = 0; k < nm; k++) {
			int lv = seen[i][k].level;
			int s = seen[i][k].out + seen[i][k].err, f = seen[i][k].a + seen[i][k].b, cb = seen[i][k].cb;
			bool must = r_level ? lv >= 2 : true; /* the level moves between DEBUG and WARN */
			VT_CHECK(cb == 1 || (cb == 0 && !must), "message %d of thread %d (%s) reached the callback %d times", k, i, lname[lv], cb);
			VT_CHECK(rotating ? f <= 1 : f == cb, "message %d of thread %d (%s) reached the callback %d times and the log file %d times", k, i, lname[lv], cb, f);
			VT_CHECK(rotating || (r_out ? s <= cb : s == cb), "message %d of thread %d (%s) reached the callback %d times and the standard streams %d times", k, i,
				 lname[lv], cb, s);
			VT_CHECK(lv == 3 ? seen[i][k].out == 0 : seen[i][k].err == 0, "message %d of thread %d (%s) went to the other standard stream", k, i, lname[lv]);
		}
	}
	vt_state(h);
	if (switches > nt) {
		vt_class("interleaved");
	}
	if (r_level) {
		vt_class("level-changes");
	}
	if (r_file) {
		vt_class("file-changes");
	}
	if (r_cb) {
		vt_class("callback-changes");
	}
	if (r_out) {
		vt_class("stdout-changes");
	}
	if (r_named) {
		vt_class("name-changes");
	}
	if (rotating && fsize(p_pa) > 0) {
		vt_class("rotated");
	}
	if (vt_want_sample() && switches > 4) {
		vt_sample("%d threads x %d messages, %d switches between threads in the callback's order, %d delivered", nt, nm, switches, ncb);
	}
}
#endif

#if MODE == 3
/* ================================================================= G03 */
static int cb_calls, cb_last;
static int cb(void *arg, enum sc_log_level l, const char *fmt, va_list va)
{
	char b[200];
	int th;
	(void) arg;
	(void) l;
	vsnprintf(b, sizeof(b), fmt, va);
	cb_calls++;
	if (sscanf(b + 1, "%d.%d", &th, &cb_last) != 2) {
		cb_last = -1;
	}
	return 0;
}
#define MAX ((long) SC_LOG_FILE_SIZE)
struct file {
	int first, last, n; /* message numbers held */
	long size;
	long foreign;       /* bytes that were there before */
	ino_t ino;
	size_t tail_msg;    /* size of its last message */
};
static long old_bytes; /* length of the content put there by the monitor */
/* parses from `at` on, adding to f */
static void scan(const char *what, const char *path, struct file *f, long at)
{
	struct stat st;
	long n, i = 0;
	char *b;
	struct rec r;
	if (at == 0) {
		memset(f, 0, sizeof(*f));
		f->first = f->last = -1;
	}
	if (stat(path, &st) != 0) {
		f->size = -1;
		return;
	}
	f->ino = st.st_ino;
	b = slurp(path, at, &n);
	while (i < n) {
		if (b[i] == '\n') {
			i++;
			continue;
		}
		if (b[i] == '#') { /* a line the monitor put there */
			char *e = memchr(b + i, '\n', (size_t) (n - i));
			if (!e) {
				vt_fail("%s: earlier content is torn", what);
			}
			f->foreign += e + 1 - (b + i);
			i = e + 1 - b;
			continue;
		}
		i += parse_one(what, b, n, i, &r);
		VT_CHECK(f->last < 0 || r.no == f->last + 1, "%s: message %d follows message %d", what, r.no, f->last);
		if (f->first < 0) {
			f->first = r.no;
		}
		f->last = r.no;
		f->tail_msg = r.size;
		f->n++;
	}
	f->size = at + n;
	vt_free(b);
}

/* the log is opened with more content than any 32 bit size can tell */
static void past(void)
{
	long size = (vt_chance(1, 2) ? 1L << 32 : 1L << 31) + (vt_chance(1, 2) ? (long) vt_below(5000) : -(long) vt_below(5000)) + (vt_chance(1, 4) ? 1L << 33 : 0);
	struct stat st, a, b;
	long n;
	int len = (int) vt_range(1, 4000), level = (int) vt_below(4);
	FILE *f = __real_fopen(p_a, "w");
	if (!f || ftruncate(fileno(f), size) != 0) {
		vt_die("cannot make a sparse file");
	}
	__real_fclose(f);
	if (stat(p_a, &st) != 0) {
		vt_die("stat");
	}
	VT_CHECK(sc_log_init() == 0, "init fails");
	sc_log_set_level("DEBUG");
	sc_log_set_stdout(false);
	sc_log_set_callback(NULL, cb);
	sc_log_set_thread_name("main");
	VT_CHECK(sc_log_set_file(p_pa, p_a) == 0, "set_file fails, errno %d", errno);
	VT_CHECK(fsize(p_a) == size || fsize(p_a) == size + 1, "opening changes the log from %ld to %ld bytes", size, fsize(p_a));
	for (int no = 0; no < 3; no++) {
		cb_calls = 0;
		VT_CHECK(emit(0, no, level, len, "main") == 0, "message %d fails", no);
		VT_CHECK(cb_calls == 1, "message %d reaches the callback %d times", no, cb_calls);
		fflush(NULL);
		if (stat(p_a, &a) != 0 || stat(p_pa, &b) != 0) {
			vt_fail("a log of %ld bytes is not rotated at message %d", size, no);
		}
		VT_CHECK(b.st_ino == st.st_ino && b.st_size >= size, "the previous log is not the one of %ld bytes, it has %ld", size, (long) b.st_size);
		VT_CHECK(a.st_size <= MAX, "the current log has %ld bytes", (long) a.st_size);
		/* each message once, in one of them */
		struct file fc, fp;
		char *t = slurp(p_pa, size, &n);
		vt_free(t);
		memset(&fp, 0, sizeof(fp));
		fp.first = fp.last = -1;
		scan("previous log", p_pa, &fp, size);
		scan("current log", p_a, &fc, 0);
		VT_CHECK(fp.n + fc.n == no + 1, "%d messages in the previous and %d in the current log after %d", fp.n, fc.n, no + 1);
		VT_CHECK((fc.n > 0 ? fc.last : fp.last) == no, "the newest message is missing");
	}
	VT_CHECK(sc_log_term() == 0, "term fails");
	vt_class("past-32-bits");
	vt_state(vt_hash((uint64_t) size, (uint64_t) len));
	reset_files();
}

static size_t path_len; /* of the longer path, 0: the usual ones */
/* paths of any length, deep below the scratch directory */
static void long_paths(bool may)
{
	char *p[2] = {p_a, p_pa};
	snprintf(p_a, sizeof(p_a), "%s/a-cur", vt_tmpdir);
	snprintf(p_pa, sizeof(p_pa), "%s/a-prev", vt_tmpdir);
	path_len = 0;
	if (!may || !vt_chance(1, 5)) {
		return;
	}
	int which = (int) vt_below(3); /* bit 0: the current, bit 1: the previous one */
	for (int k = 0; k < 2; k++) {
		if (which != 2 && which != k) {
			continue;
		}
		size_t want = vt_chance(1, 2) ? (size_t) vt_range(245, 258) : (size_t) vt_range(100, 500), n = strlen(vt_tmpdir);
		memcpy(p[k], vt_tmpdir, n);
		while (n + 2 < want) {
			size_t part = want - n - 1 > 90 ? (size_t) vt_range(20, 60) : want - n - 1;
			p[k][n++] = '/';
			memset(p[k] + n, k ? 'p' : 'c', part);
			n += part;
			p[k][n] = 0;
			if (n < want) {
				mkdir(p[k], 0700);
			}
		}
		p[k][n] = 0;
		if (n > path_len) {
			path_len = n;
		}
	}
}

void vt_case(uint64_t cn)
{
	struct file cur, prev;
	int no = 0, steps, rot = 0, style = (int) vt_below(4), base = -1; /* messages before `base` may be lost (reported faults) */
	bool open_ = false, prev_ok = true;
	char name[40] = "main";
	uint64_t h = (uint64_t) style;
	int opens = 0, fmax;
	long written = 0, goal = (long) vt_range(1, 4) * MAX + (long) vt_below((uint64_t) MAX);
	if (!pattern[0]) {
		pattern_init();
	}
	long_paths(cn % 30 != 7);
	reset_files();
	if (cn % 30 == 7) {
		past();
		return;
	}
	memset(&cur, 0, sizeof(cur));
	cur.first = cur.last = -1;
	prev = cur;
	old_bytes = 0;
	if (vt_chance(1, 3)) { /* something is there already */
		long want = vt_chance(1, 3) ? MAX + (long) vt_range(-300, 300) : (long) vt_below((uint64_t) MAX * 3 / 2);
		FILE *f = __real_fopen(p_a, "w");
		while (old_bytes < want) {
			int k = (int) vt_range(1, 3000);
			if (k > want - old_bytes && want - old_bytes > 1) {
				k = (int) (want - old_bytes);
			}
			fprintf(f, "#%.*s\n", k > 2 ? k - 2 : 0, pattern);
			old_bytes += k > 2 ? k : 2;
		}
		__real_fclose(f);
		scan("earlier content", p_a, &cur, 0);
		vt_class("existing-content");
		vt_log("the log holds %ld bytes", cur.size);
	}
	VT_CHECK(sc_log_init() == 0, "init fails");
	sc_log_set_level("DEBUG");
	sc_log_set_stdout(false);
	sc_log_set_callback(NULL, cb);
	fmax = style == 0 ? 250 : style == 1 ? 60000 : style == 2 ? 399000 : 8000;
	if (style == 2 && vt_chance(1, 3)) {
		fmax = 3400000;
		goal += 4 * MAX;
		vt_class("larger-than-the-limit");
	}
	bool lazy = style == 0; /* many small messages: looked at now and then */
	for (steps = 0; written < goal && steps < 60000; steps++) {
		bool opened = false;
		if (!open_ || vt_chance(1, lazy ? 9000 : 60)) {
			int how = open_ ? (int) vt_below(3) : 0;
			fflush(NULL);
			if (how == 1) {
				VT_CHECK(sc_log_set_file(NULL, NULL) == 0, "set_file(NULL) fails");
			} else if (how == 2) {
				VT_CHECK(sc_log_term() == 0, "term fails");
				VT_CHECK(sc_log_init() == 0, "init fails");
				sc_log_set_level("DEBUG");
				sc_log_set_stdout(false);
				sc_log_set_callback(NULL, cb);
				vt_class("restarted");
			}
			if (open_ && lazy) { /* messages since the last look */
				scan("current log", p_a, &cur, 0);
			}
			if (vt_chance(1, 6)) { /* an open that fails */
				f_fopen = EMFILE;
				hit_fopen = 0;
				errno = 0;
				noisy = true;
				int rc = sc_log_set_file(p_pa, p_a);
				noisy = false;
				f_fopen = 0;
				if (hit_fopen) {
					VT_CHECK(rc == -1, "a failing open is not reported: %d", rc);
					vt_class("open-refused");
					/* the callback still gets messages */
					cb_calls = 0;
					emit(0, no, 1, 10, name);
					VT_CHECK(cb_calls == 1, "after a failing open the callback gets nothing");
					/* this message is in no file: number is not used up */
				}
			}
			if (vt_chance(1, 4)) { /* somewhere else before */
				static char o_c[300], o_p[300];
				snprintf(o_c, sizeof(o_c), "%s/%.*s", vt_tmpdir, (int) vt_range(1, 120), "ooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooo");
				snprintf(o_p, sizeof(o_p), "%s/%.*s", vt_tmpdir, (int) vt_range(1, 120), "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq");
				VT_CHECK(sc_log_set_file(o_p, o_c) == 0, "set_file(%s) fails, errno %d", o_c, errno);
				VT_CHECK(fsize(o_c) >= 0, "set_file creates no file");
				if (vt_chance(1, 2)) {
					sc_log_set_file(NULL, NULL);
				}
				unlink(o_c);
				vt_class("elsewhere-before");
			}
			long before = fsize(p_a);
			errno = 0;
			int orc = sc_log_set_file(p_pa, p_a);
			if (orc == -1 && path_len > 250) { /* refused: nothing is logged there */
				VT_CHECK(errno != 0 && fsize(p_a) == before, "a path of %zu bytes is refused with errno %d, %ld bytes were %ld", path_len, errno, fsize(p_a), before);
				cb_calls = 0;
				emit(0, no, 1, 10, name);
				VT_CHECK(cb_calls == 1, "after a refused path the callback gets nothing");
				VT_CHECK(sc_log_term() == 0, "term fails");
				vt_class("long-path-refused");
				reset_files();
				return;
			}
			VT_CHECK(orc == 0, "set_file fails, errno %d, path of %zu bytes", errno, path_len);
			if (path_len > 200) {
				vt_class("long-path");
			}
			fflush(NULL);
			VT_CHECK(fsize(p_a) >= before, "re-opening cuts the log from %ld to %ld bytes", before, fsize(p_a));
			vt_log("open (%d): %ld bytes", how, fsize(p_a));
			open_ = true;
			opened = true;
			opens++;
			if (opens > 1) {
				vt_class("re-opened");
			}
		}
		if (vt_chance(1, 30)) {
			snprintf(name, sizeof(name), "n%d%.*s", no, (int) vt_below(25), "yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy");
			sc_log_set_thread_name(name);
		} else if (steps == 0) {
			sc_log_set_thread_name(name);
		}
		int len = vt_chance(1, 10) ? (int) vt_below(30) : (int) vt_below((uint64_t) fmax);
		int fault = !lazy && vt_chance(1, 40) ? (int) vt_range(1, 3) : 0;
		hit_rename = hit_fopen = hit_fclose = 0;
		*(fault == 1 ? &f_rename : fault == 2 ? &f_fopen : &f_fclose) = fault ? EIO : 0;
		cb_calls = 0;
		int rc = emit(0, no, (int) vt_below(4), len, name);
		f_rename = f_fopen = f_fclose = 0;
		VT_CHECK(cb_calls == 1 && cb_last == no, "message %d reaches the callback %d times", no, cb_calls);
		written += len + 60;
		int hits = hit_rename + hit_fopen + hit_fclose;
		VT_CHECK(hits ? rc != 0 : rc == 0, "message %d: %s, but logging returns %d", no, hits ? "the rotation failed" : "nothing failed", rc);
		if (hits) {
			/* reported; what the files hold afterwards is open, but later
			 * messages must be handled as usual again */
			vt_class(hit_rename ? "failed-rename" : hit_fopen ? "failed-open-at-rotation" : "failed-close");
			vt_log("message %d: rotation fails (%s), reported as %d", no, hit_rename ? "rename" : hit_fopen ? "open" : "close", rc);
			cb_calls = 0;
			emit(0, no, 1, 5, name); /* same number: in the files or not */
			VT_CHECK(cb_calls == 1, "after a failed rotation the callback gets nothing");
			sc_log_set_file(NULL, NULL);
			unlink(p_a);
			unlink(p_pa);
			open_ = false;
			no++;
			base = no;
			prev_ok = false;
			memset(&cur, 0, sizeof(cur));
			cur.first = cur.last = -1;
			prev = cur;
			continue;
		}
		no++;
		if (lazy && vt_below(2500) != 0) {
			/* without looking at the content: only the sizes */
			if ((no & 7) == 0) {
				fflush(NULL);
				long sz = fsize(p_a);
				VT_CHECK(sz <= MAX + 400, "the current log grew to %ld bytes (limit %ld)", sz, MAX);
			}
			continue;
		}
		/* ---- look ---- */
		fflush(NULL);
		struct stat st;
		if (stat(p_a, &st) != 0) {
			vt_fail("the current log does not exist after message %d", no - 1);
		}
		bool same = cur.ino == st.st_ino && st.st_size >= cur.size && cur.size > 0;
		struct file old = cur;
		if (!lazy && same && !opened) {
			scan("current log", p_a, &cur, cur.size);
		} else {
			scan("current log", p_a, &cur, 0);
		}
		if (prev_ok || fsize(p_pa) >= 0) {
			struct stat ps;
			if (stat(p_pa, &ps) == 0 && (ps.st_ino != prev.ino || ps.st_size != prev.size)) {
				struct file np;
				scan("previous log", p_pa, &np, 0);
				rot++;
				vt_class("rotated");
				vt_log("message %d: rotated, previous log holds %d messages, %ld bytes", no - 1, np.n, np.size);
				/* not too early: it was full */
				long last = cur.n > 0 ? (long) cur.tail_msg : 0;
				if (!lazy) {
					VT_CHECK(np.size + (np.last == no - 1 ? 0 : last) > MAX, "rotated at %ld bytes (limit %ld)", np.size, MAX);
					VT_CHECK(np.ino == old.ino || old.size <= 0, "the previous log is not the file that was current");
				}
				VT_CHECK(np.size <= MAX + (long) np.tail_msg + 1 || (np.foreign > MAX && np.n <= 1), "the previous log has %ld bytes (limit %ld)", np.size, MAX);
				prev = np;
			}
		}
		VT_CHECK(cur.size <= MAX + (long) cur.tail_msg, "the current log has %ld bytes after message %d of %zu bytes (limit %ld)", cur.size, no - 1,
			 cur.tail_msg, MAX);
		/* a gap-free tail ending with the newest message */
		int newest = cur.n > 0 ? cur.last : prev.last;
		VT_CHECK(newest == no - 1, "the newest message in the files is %d, logged last was %d", newest, no - 1);
		if (cur.n > 0 && prev.n > 0) {
			VT_CHECK(cur.first == prev.last + 1, "the previous log ends with message %d, the current one begins with %d", prev.last, cur.first);
		}
		int oldest = prev.n > 0 ? prev.first : cur.first;
		if (lazy) {
			/* rotations may have passed between two looks */
		} else if (rot == 0 && base < 0) {
			VT_CHECK(oldest == 0, "nothing was rotated, but the log begins with message %d", oldest);
			VT_CHECK(cur.foreign == old_bytes, "the log held %ld bytes when opened, now %ld of them", old_bytes, cur.foreign);
		} else if (rot == 1 && base < 0) {
			VT_CHECK(oldest == 0 && prev.foreign + cur.foreign == old_bytes, "after one rotation messages before %d or earlier content are missing", oldest);
		}
	}
	h = vt_hash(vt_hash(h, (uint64_t) no), (uint64_t) rot * 1000 + (uint64_t) opens);
	vt_state(vt_hash(h, (uint64_t) prev.size));
	VT_CHECK(sc_log_term() == 0, "term fails");
	fflush(NULL);
	if (open_ && base < 0 && !lazy) {
		struct file c2;
		scan("current log", p_a, &c2, 0);
		VT_CHECK(c2.size == cur.size, "term changes the log from %ld to %ld bytes", cur.size, c2.size);
	}
	vt_class(style == 0 ? "small-messages" : style == 2 ? "huge-messages" : "medium-messages");
	if (rot > 1) {
		vt_class("rotated-again");
	}
	if (vt_want_sample() && rot) {
		vt_sample("%d messages, %d opens, %d rotations: previous log %ld bytes (messages %d..%d), current %ld (%d..%d)", no, opens, rot, prev.size, prev.first,
			  prev.last, cur.size, cur.first, cur.last);
	}
	reset_files();
}
#endif
