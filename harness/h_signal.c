/* N01 (MODE=1): signal-safe formatting against pieces made by the C library.
 * N02 (MODE=2): forked processes that are signalled or fault, with their pipes
 * and exit status observed; MODE=3: a second signal delivered between any two
 * instructions of the handler of the first. */
#include "vt.h"
#include "sc_signal.h"
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#if MODE == 1
static bool inside; /* only functions allowed in signal handlers may be called */
#define UNSAFE(ret, name, params, args)                                        \
	ret __real_##name params;                                              \
	ret __wrap_##name params                                               \
	{                                                                      \
		if (inside) {                                                  \
			vt_fail(#name " is called, which is not signal-safe"); \
		}                                                              \
		return __real_##name args;                                     \
	}
UNSAFE(int, vsnprintf, (char *b, size_t n, const char *f, va_list v), (b, n, f, v))
UNSAFE(int, vsprintf, (char *b, const char *f, va_list v), (b, f, v))
UNSAFE(int, vfprintf, (FILE *fp, const char *f, va_list v), (fp, f, v))
UNSAFE(int, vdprintf, (int fd, const char *f, va_list v), (fd, f, v))
UNSAFE(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f))
int __real_snprintf(char *b, size_t n, const char *f, ...);
int __wrap_snprintf(char *b, size_t n, const char *f, ...)
{
	va_list va;
	if (inside) {
		vt_fail("snprintf is called, which is not signal-safe");
	}
	va_start(va, f);
	int rc = __real_vsnprintf(b, n, f, va);
	va_end(va);
	return rc;
}
static struct {
	int calls, fd;
	size_t n;
	int fail;
} wr;
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (!inside) {
		return __real_write(fd, b, n);
	}
	wr.calls++;
	wr.fd = fd;
	wr.n = n;
	if (n > 1 << 20) {
		vt_fail("%zu bytes are written", n);
	}
	for (size_t i = 0; i < n; i++) {
		(void) ((volatile const char *) b)[i];
	}
	if (wr.fail) {
		errno = wr.fail;
		return -1;
	}
	return __real_write(fd, b, n);
}

static int pfd[2];
void vt_setup(void)
{
	if (pipe(pfd) != 0) {
		vt_die("pipe");
	}
	fcntl(pfd[0], F_SETFL, O_NONBLOCK);
	fcntl(pfd[1], F_SETPIPE_SZ, 1 << 18);
}
static int call(char *b, size_t n, const char *f, ...)
{
	va_list va;
	va_start(va, f);
	int rc = sc_signal_vsnprintf(b, n, f, va);
	va_end(va);
	return rc;
}
static char exp_[200000];
static size_t en;
static void put(const char *s, size_t n)
{
	if (en + n > sizeof(exp_) - 1) {
		vt_die("expected text too long");
	}
	memcpy(exp_ + en, s, n);
	en += n;
}

void vt_case(uint64_t cn)
{
	char fmt[2000], piece[64];
	size_t fn = 0;
	uint64_t a[8] = {0};
	char *strs[8];
	int na = 0, parts = (int) vt_below(9);
	bool bad = false;
	uint64_t h = 0;
	(void) cn;
	en = 0;
	for (int i = 0; i < parts; i++) {
		int k = (int) vt_below(12);
		h = vt_hash(h, (uint64_t) k);
		if (k >= 9 || na == 8) { /* text */
			size_t n = vt_size(60);
			for (size_t j = 0; j < n; j++) {
				char c = vt_chance(1, 12) ? "%ldups\n"[1 + vt_below(6)] : (char) vt_range(1, 255);
				if (c == '%') {
					c = '#';
				}
				fmt[fn++] = c;
			}
			put(fmt + fn - n, n);
			continue;
		}
		if (k == 0) {
			memcpy(fmt + fn, "%%", 2);
			fn += 2;
			put("%", 1);
			vt_class("%%");
			continue;
		}
		if (k == 1) {
			bool vast = en < 100 && vt_chance(1, 2500);
			if (vast) {
				vt_class("past-65536");
			}
			size_t n = vast ? (size_t) vt_range(65530, 66600) : vt_chance(1, 60) ? (size_t) vt_range(1000, 8000) : (size_t) vt_size(80);
			memcpy(fmt + fn, "%s", 2);
			fn += 2;
			strs[na] = NULL;
			if (vt_chance(1, 10)) {
				put("(null)", 6);
				vt_class("null-string");
			} else {
				strs[na] = vt_malloc(n + 1);
				for (size_t j = 0; j < n; j++) {
					strs[na][j] = (char) vt_range(1, 255);
				}
				strs[na][n] = 0;
				put(strs[na], n);
			}
			a[na] = (uint64_t) (uintptr_t) strs[na];
			na++;
			vt_class("%s");
			continue;
		}
		static const char *cv[] = {"d", "u", "ld", "lu", "lld", "llu", "p"};
		const char *c = cv[k - 2];
		uint64_t v = vt_edge64();
		strs[na] = NULL;
		if (vt_chance(1, 12)) {
			v = vt_chance(1, 2) ? 0x8000000000000000ull : 0x80000000ull;
			vt_class("smallest");
		}
		fmt[fn++] = '%';
		memcpy(fmt + fn, c, strlen(c));
		fn += strlen(c);
		inside = false;
		switch (k) {
		case 2: __real_snprintf(piece, sizeof(piece), "%d", (int) (unsigned) v); v = (uint64_t) (int64_t) (int) (unsigned) v; break;
		case 3: __real_snprintf(piece, sizeof(piece), "%u", (unsigned) v); break;
		case 4: __real_snprintf(piece, sizeof(piece), "%ld", (long) v); break;
		case 5: __real_snprintf(piece, sizeof(piece), "%lu", (unsigned long) v); break;
		case 6: __real_snprintf(piece, sizeof(piece), "%lld", (long long) v); break;
		case 7: __real_snprintf(piece, sizeof(piece), "%llu", (unsigned long long) v); break;
		default:
			if (v == 0) {
				strcpy(piece, "0x0");
			} else {
				__real_snprintf(piece, sizeof(piece), "%p", (void *) (uintptr_t) v);
			}
			break;
		}
		a[na++] = v;
		put(piece, strlen(piece));
		vt_class(c);
	}
	if (vt_chance(1, 6)) { /* an unsupported conversion somewhere */
		static const char *bc[] = {"%c", "%x", "%i", "%5d", "%-d", "%.3s", "%lx", "%llx", "%ls", "%lp", "%l", "%ll", "%", "%lllu", "%l%", "%hd", "%zu", "%f", "%X", "%n", "% d", "%lli"};
		const char *x = bc[vt_below(sizeof(bc) / sizeof(bc[0]))];
		memcpy(fmt + fn, x, strlen(x));
		fn += strlen(x);
		bad = true;
		vt_class("unsupported");
		h = vt_hash(h, (uint64_t) (uintptr_t) x[1]);
		if (x[0] == '%' && (x[1] == 0 || x[strlen(x) - 1] == 'l')) {
			vt_class("cut-short");
		} else if (vt_chance(1, 2)) {
			memcpy(fmt + fn, "tail", 4);
			fn += 4;
		}
	}
	fmt[fn] = 0;
	exp_[en] = 0;
	char *f = vt_malloc(fn + 1); /* exactly sized */
	memcpy(f, fmt, fn + 1);
	size_t sz;
	switch (vt_below(6)) {
	case 0: sz = 0; break;
	case 1: sz = en; break;
	case 2: sz = en + 1; break;
	case 3: sz = en ? (size_t) vt_below(en) : 0; break;
	case 4: sz = (size_t) vt_below(4); break;
	default: sz = en + 1 + (size_t) vt_below(100); break;
	}
	/* the buffer is the end of a block: the byte behind it is poisoned */
	char *blk = vt_malloc(sz + 16), *buf = blk + 16;
	memset(blk, 0x5a, sz + 16);
	size_t want = sz == 0 ? 0 : en < sz ? en : sz - 1;
	int how = (int) vt_below(3), rc;
	vt_log("%s(size %zu, %s) wants %zu bytes", how == 0 ? "snprintf" : how == 1 ? "vsnprintf" : "log", sz, vt_quote(f, fn), en);
	uint64_t al = vt_allocs;
	memset(&wr, 0, sizeof(wr));
	errno = 0;
	if (how < 2) {
		inside = true;
		if (how == 0) {
			rc = sc_signal_snprintf(buf, sz, f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
		} else {
			rc = call(buf, sz, f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
		}
		inside = false;
		if (bad) {
			VT_CHECK(rc == -1, "format %s is accepted: %d", vt_quote(f, fn), rc);
		} else {
			VT_CHECK(rc == (int) want, "format %s into %zu bytes returns %d instead of %zu", vt_quote(f, fn), sz, rc, want);
			VT_CHECK(memcmp(buf, exp_, want) == 0, "format %s gives %s instead of %s", vt_quote(f, fn), vt_quote(buf, want), vt_quote(exp_, want));
			VT_CHECK(sz == 0 || buf[want] == 0, "the text is not terminated");
			vt_class(sz == 0 ? "size-zero" : en >= sz ? "truncated" : en + 1 == sz ? "fits-exactly" : "fits");
		}
		VT_CHECK(wr.calls == 0, "formatting writes to a descriptor");
	} else {
		static char got[200000];
		if (vt_chance(1, 12)) {
			wr.fail = EIO;
		}
		inside = true;
		sc_signal_log(pfd[1], buf, sz, f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
		inside = false;
		ssize_t n = read(pfd[0], got, sizeof(got));
		n = n < 0 ? 0 : n;
		if (bad) {
			VT_CHECK(n == 0 && wr.calls == 0, "an unsupported format %s makes %d writes of %zu bytes", vt_quote(f, fn), wr.calls, wr.n);
			vt_class("log.unsupported");
		} else {
			VT_CHECK(wr.calls == 1 || (want == 0 && wr.calls == 0), "logging makes %d writes", wr.calls);
			VT_CHECK(wr.calls == 0 || wr.fd == pfd[1], "logging writes to descriptor %d instead of %d", wr.fd, pfd[1]);
			if (!wr.fail) {
				VT_CHECK((size_t) n == want && memcmp(got, exp_, want) == 0, "logging writes %s instead of %s", vt_quote(got, (size_t) n), vt_quote(exp_, want));
				vt_class("log");
			}
		}
	}
	VT_CHECK(vt_allocs == al, "memory is allocated, which is not signal-safe");
	for (int i = 0; i < 16; i++) {
		VT_CHECK(blk[i] == 0x5a, "the bytes before the buffer are changed");
	}
	vt_state(vt_hash(vt_hash(h, sz), vt_hash_bytes(1, f, fn)));
	if (vt_want_sample() && na > 3 && !bad) {
		vt_sample("%s -> %.60s", vt_quote(f, fn > 60 ? 60 : fn), vt_quote(exp_, en > 60 ? 60 : en));
	}
	vt_free(blk);
	vt_free(f);
	for (int i = 0; i < na; i++) {
		vt_free(strs[i]);
	}
}

#else
/* ============================================================ processes */
static int f_signal, f_sigaction, n_init;
typedef void (*sh)(int);
sh __real_signal(int s, sh h);
sh __wrap_signal(int s, sh h)
{
	if (f_signal && --f_signal == 0) {
		errno = EINVAL;
		return SIG_ERR;
	}
	n_init++;
	return __real_signal(s, h);
}
int __real_sigaction(int s, const struct sigaction *a, struct sigaction *o);
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
	if (f_sigaction && a && --f_sigaction == 0) {
		errno = EINVAL;
		return -1;
	}
	return __real_sigaction(s, a, o);
}

enum { SD_NONE, SD_PIPE, SD_CLOSED, SD_READONLY, SD_NOREADER, SD_FULL, SD_N };
static const char *sdn[] = {"none", "pipe", "closed descriptor", "read-only descriptor", "pipe without reader", "full pipe"};
static int p_log[2], p_o[2], p_e[2], p_sd[2], p_sync[2];
static int low; /* descriptor 0 carries: 1 the notices, 2 the log */
static int sd, logcfg; /* logcfg: 0 default, 1 a pipe; from 2 on nothing can be logged */
enum { LOG_DEFAULT, LOG_PIPE, LOG_CLOSED, LOG_FULL, LOG_GONE, LOG_NO_STDERR, LOG_N };
static const char *logn[] = {"default", "configured", "closed", "full", "without reader", "closed standard error"};

static void mkpipe(int *p)
{
	if (pipe2(p, O_CLOEXEC) != 0) {
		vt_die("pipe");
	}
}
static void all_pipes(void)
{
	mkpipe(p_log);
	mkpipe(p_o);
	mkpipe(p_e);
	mkpipe(p_sd);
	mkpipe(p_sync);
}
static void shut(int *fd)
{
	if (*fd >= 0) {
		close(*fd);
		*fd = -1;
	}
}
static size_t drain(int fd, char *b, size_t cap)
{
	size_t n = 0;
	ssize_t r;
	if (fd < 0) {
		b[0] = 0;
		return 0;
	}
	fcntl(fd, F_SETFL, O_NONBLOCK);
	while (n < cap - 1 && (r = read(fd, b + n, cap - 1 - n)) > 0) {
		n += (size_t) r;
	}
	b[n] = 0;
	return n;
}
/* in the child: descriptors, then the library */
static void child_setup(void)
{
	dup2(p_o[1], 1);
	dup2(p_e[1], 2);
	shut(&p_log[0]);
	shut(&p_sync[0]);
	if (sc_signal_init() != 0) {
		_exit(50);
	}
	switch (logcfg) {
	case LOG_PIPE: sc_signal_log_fd = p_log[1]; break;
	case LOG_CLOSED: sc_signal_log_fd = 986; break;
	case LOG_FULL: {
		int f[2];
		char z[4096];
		memset(z, 'z', sizeof(z));
		if (pipe2(f, O_NONBLOCK) == 0) {
			while (write(f[1], z, sizeof(z)) > 0) {}
			while (write(f[1], z, 1) > 0) {}
		}
		sc_signal_log_fd = f[1];
		break;
	}
	case LOG_GONE: {
		int f[2];
		if (pipe(f) == 0) {
			close(f[0]);
		}
		sc_signal_log_fd = f[1];
		break;
	}
	case LOG_NO_STDERR: close(2); break;
	default: break;
	}
	switch (sd) {
	case SD_PIPE: sc_signal_shutdown_fd = p_sd[1]; break;
	case SD_CLOSED: sc_signal_shutdown_fd = 987; break;
	case SD_READONLY: sc_signal_shutdown_fd = p_sd[0]; break;
	case SD_NOREADER:
		sc_signal_shutdown_fd = p_sd[1];
		break;
	case SD_FULL:
		fcntl(p_sd[1], F_SETFL, O_NONBLOCK);
		{
			char z[4096];
			memset(z, 'z', sizeof(z));
			while (write(p_sd[1], z, sizeof(z)) > 0) {}
			while (write(p_sd[1], z, 1) > 0) {}
		}
		sc_signal_shutdown_fd = p_sd[1];
		break;
	default: break;
	}
	if (low == 1 && sd == SD_PIPE) {
		dup2(p_sd[1], 0);
		sc_signal_shutdown_fd = 0;
	}
	if (low == 2 && logcfg == LOG_PIPE) {
		dup2(p_log[1], 0);
		sc_signal_log_fd = 0;
	}
}
static int wait_child(pid_t pid)
{
	int st = 0;
	for (;;) {
		pid_t r = waitpid(pid, &st, 0);
		if (r == pid) {
			return st;
		}
		if (r < 0 && errno != EINTR) {
			vt_die("waitpid");
		}
	}
}
static char t_log[200000], t_o[200000], t_e[200000], t_sd[200000];
static size_t n_log, n_o, n_e, n_sd;
static void collect(void)
{
	shut(&p_log[1]);
	shut(&p_o[1]);
	shut(&p_e[1]);
	shut(&p_sd[1]);
	n_log = drain(p_log[0], t_log, sizeof(t_log));
	n_o = drain(p_o[0], t_o, sizeof(t_o));
	n_e = drain(p_e[0], t_e, sizeof(t_e));
	n_sd = drain(p_sd[0], t_sd, sizeof(t_sd));
	shut(&p_log[0]);
	shut(&p_o[0]);
	shut(&p_e[0]);
	shut(&p_sd[0]);
	shut(&p_sync[0]);
	shut(&p_sync[1]);
}
static const char *signame(int s)
{
	return s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" :
	       s == SIGINT  ? "SIGINT" :
	       s == SIGTERM ? "SIGTERM" :
	       s == SIGHUP  ? "SIGHUP" :
	       s == SIGPIPE ? "SIGPIPE" :
			      "?";
}
static void describe(char *b, size_t n, int st)
{
	if (WIFEXITED(st)) {
		snprintf(b, n, "exited with %d", WEXITSTATUS(st));
	} else if (WIFSIGNALED(st)) {
		snprintf(b, n, "died of signal %d (%s)", WTERMSIG(st), signame(WTERMSIG(st)));
	} else {
		snprintf(b, n, "status %d", st);
	}
}
/* a sanitizer complaint of the child is this process' complaint */
static void child_report(int st)
{
	if (WIFEXITED(st) && (WEXITSTATUS(st) == 71 || WEXITSTATUS(st) == 72)) {
		vt_fail("sanitizer report in the signalled process: %s", vt_quote(t_e, n_e > 900 ? 900 : n_e));
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 50) {
		vt_fail("init fails");
	}
}
static void check_report(int sig)
{
	const char *in = logcfg ? t_log : t_e, *other = logcfg ? t_e : t_log;
	VT_CHECK(strstr(in, signame(sig)), "the report of %s on %s is %s", signame(sig), logcfg ? "the log descriptor" : "standard error",
		 vt_quote(in, strlen(in) > 200 ? 200 : strlen(in)));
	VT_CHECK(!strstr(other, signame(sig)) && !strstr(t_o, signame(sig)), "the report also went elsewhere");
}
#endif

#if MODE == 2
static volatile int f_notice; /* interruptions of the write of the notice to come */
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (f_notice && fd == sc_signal_shutdown_fd) {
		f_notice--;
		errno = EINTR;
		return -1;
	}
	return __real_write(fd, b, n);
}
enum { BY_RAISE, BY_KILL, BY_PARENT, BY_THREAD, REAL, NHOW };
static volatile int *released;
static const char *hown[] = {"raised", "killed itself", "sent by another process", "raised in a thread", "real fault"};

__attribute__((noinline, no_sanitize("address", "undefined"))) static void real_fault(int sig)
{
	volatile int zero = 0;
	switch (sig) {
	case SIGSEGV: *(volatile int *) (uintptr_t) (8 + zero) = 1; break;
	case SIGFPE: __asm__ volatile("xor %%edx,%%edx; mov $1,%%eax; xor %%ecx,%%ecx; idivl %%ecx" ::: "eax", "ecx", "edx"); break;
	case SIGILL: __asm__ volatile("ud2"); break;
	case SIGABRT: abort();
	case SIGBUS: {
		char p[600];
		snprintf(p, sizeof(p), "%s/bus.%d", vt_tmpdir, (int) getpid());
		int fd = open(p, O_RDWR | O_CREAT, 0600);
		unlink(p);
		volatile char *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		m[100] = 1;
		break;
	}
	default: break;
	}
}
static void *thr(void *p)
{
	raise((int) (intptr_t) p);
	return NULL;
}
struct step {
	int sig, how;
};
static void child(struct step *s, int n, int hurt)
{
	child_setup();
	f_notice = hurt;
	for (int i = 0; i < n; i++) {
		char c = (char) i;
		if (write(p_sync[1], &c, 1) != 1) {
			_exit(51);
		}
		errno = 4321;
		switch (s[i].how) {
		case BY_RAISE: raise(s[i].sig); break;
		case BY_KILL: kill(getpid(), s[i].sig); break;
		case BY_PARENT: {
			/* sent when the parent has read the byte above */
			struct timespec t = {0, 100000};
			uint64_t t0 = vt_now_us();
			while (__atomic_load_n(released, __ATOMIC_SEQ_CST) <= i && vt_now_us() - t0 < 60000000) {
				nanosleep(&t, NULL);
				errno = 4321;
			}
			break;
		}
		case BY_THREAD: {
			pthread_t t;
			pthread_create(&t, NULL, thr, (void *) (intptr_t) s[i].sig);
			pthread_join(t, NULL);
			errno = 4321;
			break;
		}
		default:
			if (s[i].sig == SIGPIPE) {
				int p[2];
				if (pipe(p) == 0) {
					close(p[0]);
					if (write(p[1], "x", 1) != -1 || errno != EPIPE) {
						_exit(52);
					}
					close(p[1]);
				}
				errno = 4321;
			} else {
				real_fault(s[i].sig);
			}
			break;
		}
		if (errno != 4321) {
			_exit(43);
		}
	}
	_exit(42);
}
void vt_setup(void)
{
	released = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
void vt_case(uint64_t cn)
{
	static const int term[] = {SIGINT, SIGTERM}, fatal[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}, ign[] = {SIGHUP, SIGPIPE};
	struct step s[6];
	int n = (int) vt_range(1, 6), want_notes = 0, will = 0, died = 0, end = -1, asked[2] = {0, 0};
	bool exits = false;
	uint64_t h = 0;
	char d[100];
	(void) cn;
	if (vt_chance(1, 30)) { /* an initialisation that fails is reported */
		pid_t pid;
		int at = (int) vt_range(1, 6), which = (int) vt_below(2);
		fflush(NULL);
		pid = fork();
		if (pid == 0) {
			*(which ? &f_sigaction : &f_signal) = at;
			int rc = sc_signal_init();
			bool hit = (which ? f_sigaction : f_signal) == 0;
			_exit(!hit ? 2 : rc == -1 ? 0 : 1);
		}
		int st = wait_child(pid);
		VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 1, "init succeeds although %s failed", which ? "sigaction" : "signal");
		if (WEXITSTATUS(st) == 0) {
			vt_class("init-refused");
		}
		return;
	}
	sd = vt_chance(1, 2) ? SD_PIPE : (int) vt_below(SD_N);
	logcfg = vt_chance(1, 3) ? (int) vt_below(LOG_N) : (int) vt_below(2);
	for (int i = 0; i < n; i++) {
		int k = (int) vt_below(10);
		s[i].sig = k < 4 ? term[vt_below(2)] : k < 7 ? fatal[vt_below(5)] : ign[vt_below(2)];
		s[i].how = (int) vt_below(NHOW);
		if (k < 4 && s[i].how == REAL) {
			s[i].how = BY_RAISE;
		}
		if (s[i].sig == SIGHUP && s[i].how == REAL) {
			s[i].how = BY_KILL;
		}
		h = vt_hash(h, (uint64_t) (s[i].sig * 10 + s[i].how));
	}
	/* what must happen */
	for (int i = 0; i < n && end < 0; i++) {
		if (s[i].sig == SIGINT || s[i].sig == SIGTERM) {
			asked[s[i].sig == SIGTERM]++;
			if (will || sd != SD_PIPE) {
				exits = true;
				end = i;
			} else {
				will = 1;
				want_notes++;
			}
		} else if (s[i].sig != SIGHUP && s[i].sig != SIGPIPE) {
			died = s[i].sig;
			end = i;
		}
	}
	int hurt = sd == SD_PIPE && vt_chance(1, 10) ? (int) vt_range(1, 3) : 0;
	low = vt_chance(1, 4) ? (int) vt_range(1, 2) : 0;
	*released = 0;
	all_pipes();
	if (sd == SD_NOREADER) {
		shut(&p_sd[0]);
	}
	fflush(NULL);
	pid_t pid = fork();
	if (pid < 0) {
		vt_die("fork");
	}
	if (pid == 0) {
		child(s, n, hurt);
	}
	shut(&p_sync[1]);
	shut(&p_log[1]);
	shut(&p_o[1]);
	shut(&p_e[1]);
	char c;
	while (read(p_sync[0], &c, 1) == 1) {
		vt_log("signal %s, %s", signame(s[(int) c].sig), hown[s[(int) c].how]);
		if (s[(int) c].how == BY_PARENT) {
			kill(pid, s[(int) c].sig);
			/* delivered before the child is let go */
			__atomic_store_n(released, c + 1, __ATOMIC_SEQ_CST);
		}
	}
	int st = wait_child(pid);
	collect();
	child_report(st);
	describe(d, sizeof(d), st);
	vt_log("notices: %s, log: %s -> %s", sdn[sd], logn[logcfg], d);
	if (logcfg >= LOG_CLOSED && want_notes) {
		vt_class("log-unusable");
	}
	VT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 43), "a handled signal changes errno of the interrupted code");
	VT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 52), "writing to a broken pipe does not fail with EPIPE");
	if (hurt && want_notes && n_sd == 0 && WIFEXITED(st) && WEXITSTATUS(st) != 42) {
		/* the notice could not be sent, so the process exits at once */
		vt_class("notice-interrupted-exit");
		vt_state(vt_hash(h, 77));
		return;
	}
	if (hurt && want_notes) {
		vt_class("notice-interrupted-sent");
	}
	if (low == 1 && want_notes) {
		vt_class("notice-to-descriptor-0");
	}
	if (low == 2 && logcfg == LOG_PIPE) {
		vt_class("log-to-descriptor-0");
	}
	for (int i = 0; i < 2 && logcfg < LOG_CLOSED; i++) {
		const char *nm = i ? "SIGTERM" : "SIGINT", *in = logcfg ? t_log : t_o;
		VT_CHECK(!strstr(t_e, nm) && !strstr(logcfg ? t_o : t_log, nm) && !strstr(t_sd, nm), "what is logged about %s goes elsewhere", nm);
		VT_CHECK(!asked[i] || strstr(in, nm), "nothing about %s is logged to %s", nm, logcfg ? "the log descriptor" : "standard output");
		if (asked[i]) {
			vt_class("request-logged");
		}
	}
	if (end < 0) {
		VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 42, "the process should have continued, but it %s", d);
		vt_class("continued");
	} else if (exits) {
		VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 42, "the process should have exited at %s, but it %s", signame(s[end].sig), d);
		vt_class(will ? "second-signal" : sd == SD_NONE ? "no-handler" : "notice-failed");
	} else {
		VT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == died, "the process should have died of %s (%s), but it %s", signame(died), hown[s[end].how], d);
		if (logcfg < LOG_CLOSED) {
			check_report(died);
		}
		vt_class(signame(died));
		vt_class(hown[s[end].how]);
		if (will) {
			vt_class("fatal-after-shutdown-request");
		}
	}
	if (sd == SD_PIPE) {
		VT_CHECK(n_sd == (size_t) want_notes, "%zu bytes were sent to the shutdown descriptor instead of %d", n_sd, want_notes);
		if (want_notes) {
			vt_class("notice");
		}
	}
	vt_state(vt_hash(h, (uint64_t) (sd * LOG_N + logcfg)));
	if (vt_want_sample() && n > 2) {
		vt_sample("%d signals (first %s %s), notices to %s, log %s: %s, %zu notices", n, signame(s[0].sig), hown[s[0].how], sdn[sd], logn[logcfg], d,
			  n_sd);
	}
}
#endif

#if MODE == 3
/* ---- the second signal between any two instructions of the first handler ---- */
#define MAXSTEP 400000
static volatile uint64_t step_no, step_at;
static volatile int stepping, inject, recording;
static struct shared {
	uint64_t n;
	int injected;
	uintptr_t rip[MAXSTEP];
} *sh_;
static void on_trap(int sig, siginfo_t *i, void *ctx)
{
	ucontext_t *u = ctx;
	int e = errno;
	(void) sig;
	(void) i;
	if (!stepping) {
		u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
		return;
	}
	if (recording && step_no < MAXSTEP) {
		sh_->rip[step_no] = (uintptr_t) u->uc_mcontext.gregs[REG_RIP];
		sh_->n = step_no + 1;
	}
	if (step_no++ == step_at && inject) {
		stepping = 0;
		u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
		sh_->injected = 1;
		kill(getpid(), inject); /* taken here unless blocked */
	}
	errno = e;
}
/* calls the installed handler of `sig` as the kernel would: its mask blocked */
static void deliver(int sig)
{
	struct sigaction a;
	sigset_t m, old;
	static siginfo_t si;
	static ucontext_t uc;
	__real_sigaction(sig, NULL, &a);
	m = a.sa_mask;
	if (!(a.sa_flags & SA_NODEFER)) {
		sigaddset(&m, sig);
	}
	sigdelset(&m, SIGTRAP);
	sigprocmask(SIG_BLOCK, &m, &old);
	if (a.sa_flags & SA_RESETHAND) {
		struct sigaction d;
		memset(&d, 0, sizeof(d));
		d.sa_handler = SIG_DFL;
		__real_sigaction(sig, &d, NULL);
	}
	void (*h)(int) = a.sa_handler;
	void (*h3)(int, siginfo_t *, void *) = a.sa_sigaction;
	stepping = 1;
	__asm__ volatile("lea -256(%%rsp), %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tlea 256(%%rsp), %%rsp" ::: "memory", "cc");
	if (a.sa_flags & SA_SIGINFO) {
		h3(sig, &si, &uc);
	} else {
		h(sig);
	}
	stepping = 0;
	__asm__ volatile("nop; nop");
	sigprocmask(SIG_SETMASK, &old, NULL);
}
static void child(int first, int second, uint64_t at)
{
	struct sigaction t;
	child_setup();
	memset(&t, 0, sizeof(t));
	t.sa_sigaction = on_trap;
	t.sa_flags = SA_SIGINFO | SA_NODEFER;
	__real_sigaction(SIGTRAP, &t, NULL);
	alarm(30); /* a fault taken again and again is no end */
	step_no = 0;
	step_at = at;
	inject = second;
	errno = 4321;
	deliver(first);
	if (errno != 4321) {
		_exit(43);
	}
	if (stepping == 0 && second && step_no <= at) {
		kill(getpid(), second); /* the handler was over before the chosen point */
	}
	_exit(42);
}
static uint64_t *points;
static uint64_t npoints;
#ifdef FATAL
#define RECORDED SIGSEGV
static const int firsts[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGSEGV, SIGABRT};
static const int seconds[] = {SIGSEGV, SIGSEGV, SIGABRT, SIGINT, SIGTERM, SIGHUP, SIGPIPE};
#else
#define RECORDED SIGINT
static const int firsts[] = {SIGINT, SIGTERM, SIGINT, SIGTERM, SIGINT, SIGTERM};
static const int seconds[] = {SIGTERM, SIGINT, SIGINT, SIGTERM, SIGHUP, SIGSEGV};
#endif
#define NPAIRS (sizeof(firsts) / sizeof(firsts[0]))
void vt_setup(void)
{
	sh_ = mmap(NULL, sizeof(*sh_), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sd = SD_PIPE;
	logcfg = 1;
	all_pipes();
	pid_t pid = fork();
	if (pid == 0) {
		recording = 1;
		child(RECORDED, 0, MAXSTEP);
	}
	int st = wait_child(pid);
	collect();
#ifdef FATAL
	if (!(WIFSIGNALED(st) && WTERMSIG(st) == RECORDED) || sh_->n < 100) {
		vt_fail("the process does not die of a fatal signal (status %x, %llu instructions)", st, (unsigned long long) sh_->n);
	}
#else
	if (!(WIFEXITED(st) && WEXITSTATUS(st) == 42) || sh_->n < 100) {
		vt_fail("a single interrupt signal with a notice descriptor does not let the process continue (status %x, %llu instructions)", st,
			(unsigned long long) sh_->n);
	}
#endif
	/* first and last time each instruction is reached */
	points = vt_malloc(sizeof(uint64_t) * (size_t) sh_->n);
	for (uint64_t i = 0; i < sh_->n; i++) {
		bool first = true, last = true;
		for (uint64_t k = 0; k < i && first; k++) {
			first = sh_->rip[k] != sh_->rip[i];
		}
		for (uint64_t k = i + 1; k < sh_->n && last; k++) {
			last = sh_->rip[k] != sh_->rip[i];
		}
		if (first || last) {
			points[npoints++] = i;
		}
	}
}
void vt_case(uint64_t cn)
{
	uint64_t at = points[cn % npoints];
	int k = (int) ((cn / npoints) % NPAIRS);
	char d[100];
	if (cn >= npoints * NPAIRS) {
		at = vt_below(sh_->n);
		k = (int) vt_below(NPAIRS);
	}
	sd = SD_PIPE;
	logcfg = (int) vt_below(2);
	all_pipes();
	sh_->injected = 0;
	pid_t pid = fork();
	if (pid < 0) {
		vt_die("fork");
	}
	if (pid == 0) {
		child(firsts[k], seconds[k], at);
	}
	shut(&p_sync[1]);
	shut(&p_log[1]);
	shut(&p_o[1]);
	shut(&p_e[1]);
	int st = wait_child(pid);
	collect();
	child_report(st);
	describe(d, sizeof(d), st);
	vt_log("%s while %s is handled, before instruction %llu of %llu -> %s, %zu notices", signame(seconds[k]), signame(firsts[k]), (unsigned long long) at,
	       (unsigned long long) sh_->n, d, n_sd);
	VT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 43), "a handled signal changes errno of the interrupted code");
#ifdef FATAL
	bool again = seconds[k] != SIGINT && seconds[k] != SIGTERM && seconds[k] != SIGHUP && seconds[k] != SIGPIPE;
	VT_CHECK(WIFSIGNALED(st) && (WTERMSIG(st) == firsts[k] || (again && WTERMSIG(st) == seconds[k])),
		 "%s arrives while %s is handled (before instruction %llu): the process %s", signame(seconds[k]), signame(firsts[k]), (unsigned long long) at, d);
	/* the process is going down: the request may be held back until it has */
	VT_CHECK(n_sd <= (sh_->injected && (seconds[k] == SIGINT || seconds[k] == SIGTERM) ? 1 : 0), "%s during %s: %zu notices", signame(seconds[k]), signame(firsts[k]), n_sd);
	if (!again) {
		check_report(firsts[k]);
	}
	vt_class(again ? "fault-inside-report" : sh_->injected && seconds[k] != SIGHUP && seconds[k] != SIGPIPE ? "request-inside-report" : "ignored-inside-report");
#else
	if (seconds[k] == SIGHUP) {
		VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 42 && n_sd == 1, "%s during %s: the process %s, %zu notices", signame(seconds[k]), signame(firsts[k]), d, n_sd);
		vt_class("ignored-inside");
	} else if (seconds[k] == SIGSEGV) {
		VT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV && n_sd <= 1, "a fault during %s: the process %s, %zu notices", signame(firsts[k]), d, n_sd);
		check_report(SIGSEGV);
		vt_class("fault-inside");
	} else {
		VT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 42, "%s arrives while %s is handled (before instruction %llu): the process %s", signame(seconds[k]),
			 signame(firsts[k]), (unsigned long long) at, d);
		VT_CHECK(n_sd == 1, "%s arrives while %s is handled: %zu notices are sent", signame(seconds[k]), signame(firsts[k]), n_sd);
		vt_class(firsts[k] == seconds[k] ? "same-signal-inside" : "other-signal-inside");
	}
#endif
	vt_state(vt_hash(at, (uint64_t) k));
	if (vt_want_sample()) {
		vt_sample("%s delivered before instruction %llu of the handler of %s (%llu instructions, %llu distinct points): %s, %zu notices", signame(seconds[k]),
			  (unsigned long long) at, signame(firsts[k]), (unsigned long long) sh_->n, (unsigned long long) npoints, d, n_sd);
	}
}
#endif
