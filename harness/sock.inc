/* Stand-ins for the socket system calls used by the code under test (only
 * while `inside`): descriptor accounting, the n-th call failing, interruptions
 * and short transfers. */
#include <sys/uio.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

static __thread bool inside;
static __thread vt_rng io_r;
static __thread long sys_n;         /* calls made inside */
static __thread long fail_at;       /* this one fails (0: none) */
static __thread bool fail_more;     /* ... and all later ones of its kind */
static __thread int fail_err;
static __thread long failed_n;      /* calls failed so far */
static __thread const char *failed_call;
static __thread int failed_errno;
static __thread const char *calls[64];
static __thread int p_short, p_eintr, p_eagain; /* in 100 */
static __thread int eintr_run;      /* interruptions in a row to come */
static __thread long moved;         /* bytes really moved by this operation */
static __thread int n_intr, n_again, n_short, last_io_err;
static __thread int n_data;         /* data calls made */
#define MAXFD 24000
static unsigned char owned[MAXFD];
static int n_owned, n_gai;
static int (*gai_hook)(const char *h, const char *s, struct addrinfo **r);

static void own(int fd)
{
	if (fd >= 0 && fd < MAXFD) {
		__atomic_store_n(&owned[fd], 1, __ATOMIC_RELAXED);
		__atomic_add_fetch(&n_owned, 1, __ATOMIC_RELAXED);
	}
}
/* some calls fail for reasons of their own */
static int vary(const char *name, int e)
{
	static const int c[] = {EIO, EINTR, ENOSPC, EDQUOT}, p[] = {ENOSPC, EBADF, ENOENT, EPERM, EEXIST, ELOOP}, b[] = {EINTR, EOPNOTSUPP, ENOPROTOOPT, ENOTCONN};
	unsigned k = (unsigned) e + (unsigned) sys_n;
	return strcmp(name, "close") == 0 ? c[k % 4] : k % 2 ? e : strcmp(name, "epoll_ctl") == 0 ? p[k % 6] :
		strcmp(name, "listen") == 0 || strcmp(name, "setsockopt") == 0 || strncmp(name, "get", 3) == 0 ? b[k % 4] : e;
}
static bool inject(const char *name)
{
	sys_n++;
	if (sys_n < 64) {
		calls[sys_n] = name;
	}
	if (fail_at && (sys_n == fail_at || (fail_more && failed_call == name))) {
		failed_call = name;
		failed_n++;
		failed_errno = vary(name, fail_err);
		errno = failed_errno;
		return true;
	}
	return false;
}
static void begin(void)
{
	sys_n = failed_n = 0;
	failed_call = NULL;
	failed_errno = 0;
	fail_at = 0;
	fail_more = false;
	moved = 0;
	n_intr = n_again = n_short = n_data = last_io_err = 0;
	eintr_run = p_eintr && vt_below_r(&io_r, 25) == 0 ? 1 << vt_below_r(&io_r, 11) : 0;
	inside = true;
	errno = 0;
}
static void end(void)
{
	int e = errno;
	inside = false;
	fail_at = 0;
	errno = e;
}
/* a failed call leaves errno unspecified bytes in outputs alone */
#define W0(ret, name, params, args)                                            \
	ret __real_##name params;                                              \
	ret __wrap_##name params                                               \
	{                                                                      \
		if (inside && inject(#name)) {                                 \
			return -1;                                             \
		}                                                              \
		return __real_##name args;                                     \
	}
#define WFD(name, params, args)                                                \
	int __real_##name params;                                              \
	int __wrap_##name params                                               \
	{                                                                      \
		if (inside && inject(#name)) {                                 \
			return -1;                                             \
		}                                                              \
		int fd_ = __real_##name args;                                  \
		if (inside) {                                                  \
			own(fd_);                                              \
		}                                                              \
		return fd_;                                                    \
	}
WFD(socket, (int d, int t, int p), (d, t, p))
WFD(accept, (int s, struct sockaddr *a, socklen_t *n), (s, a, n))
WFD(accept4, (int s, struct sockaddr *a, socklen_t *n, int f), (s, a, n, f))
WFD(epoll_create1, (int f), (f))
WFD(epoll_create, (int f), (f))
W0(int, bind, (int s, const struct sockaddr *a, socklen_t n), (s, a, n))
W0(int, listen, (int s, int n), (s, n))
W0(int, connect, (int s, const struct sockaddr *a, socklen_t n), (s, a, n))
W0(int, setsockopt, (int s, int l, int o, const void *v, socklen_t n), (s, l, o, v, n))
/* the error a connection attempt ended with, when not 0 */
static __thread int so_error;
int __real_getsockopt(int s, int l, int o, void *v, socklen_t *n);
int __wrap_getsockopt(int s, int l, int o, void *v, socklen_t *n)
{
	if (inside && inject("getsockopt")) {
		return -1;
	}
	int rc = __real_getsockopt(s, l, o, v, n);
	if (inside && rc == 0 && l == SOL_SOCKET && o == SO_ERROR && so_error) {
		*(int *) v = so_error;
	}
	return rc;
}
/* names to report instead of the real ones: local, remote */
static struct sockaddr_storage fake_name[2];
static socklen_t fake_len[2];
static int give_fake(int k, struct sockaddr *a, socklen_t *n)
{
	memcpy(a, &fake_name[k], *n < fake_len[k] ? *n : fake_len[k]);
	*n = fake_len[k];
	return 0;
}
#define WNAME(name, k)                                                         \
	int __real_##name(int s, struct sockaddr *a, socklen_t *n);            \
	int __wrap_##name(int s, struct sockaddr *a, socklen_t *n)             \
	{                                                                      \
		if (inside && inject(#name)) {                                 \
			return -1;                                             \
		}                                                              \
		return fake_len[k] ? give_fake(k, a, n) : __real_##name(s, a, n); \
	}
WNAME(getsockname, 0)
WNAME(getpeername, 1)
#ifndef OWN_EPOLL
W0(int, epoll_ctl, (int e, int o, int fd, struct epoll_event *ev), (e, o, fd, ev))
W0(int, epoll_wait, (int e, struct epoll_event *ev, int n, int t), (e, ev, n, t))
W0(int, epoll_pwait, (int e, struct epoll_event *ev, int n, int t, const sigset_t *m), (e, ev, n, t, m))
#endif
#define WPIPE(name, params, args)                                              \
	int __real_##name params;                                              \
	int __wrap_##name params                                               \
	{                                                                      \
		if (inside && inject(#name)) {                                 \
			return -1;                                             \
		}                                                              \
		int rc = __real_##name args;                                   \
		if (inside && rc == 0) {                                       \
			own(f[0]);                                             \
			own(f[1]);                                             \
		}                                                              \
		return rc;                                                     \
	}
WPIPE(pipe, (int *f), (f))
WPIPE(pipe2, (int *f, int fl), (f, fl))
#define WFCNTL(name)                                                           \
	int __real_##name(int fd, int cmd, ...);                               \
	int __wrap_##name(int fd, int cmd, ...)                                \
	{                                                                      \
		va_list va;                                                    \
		va_start(va, cmd);                                             \
		long a = va_arg(va, long);                                     \
		va_end(va);                                                    \
		if (inside && inject(#name)) {                                 \
			return -1;                                             \
		}                                                              \
		return __real_##name(fd, cmd, a);                              \
	}
WFCNTL(fcntl)
WFCNTL(fcntl64)
int __real_ioctl(int fd, unsigned long req, ...);
int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list va;
	va_start(va, req);
	void *a = va_arg(va, void *);
	va_end(va);
	if (inside && inject("ioctl")) {
		return -1;
	}
	return __real_ioctl(fd, req, a);
}
int __real_close(int fd);
int __wrap_close(int fd)
{
	if (inside) {
		if (fd < 0 || fd >= MAXFD || !__atomic_load_n(&owned[fd], __ATOMIC_RELAXED)) {
			vt_fail("descriptor %d is closed, which is closed already or not the object's own", fd);
		}
		__atomic_store_n(&owned[fd], 0, __ATOMIC_RELAXED);
		__atomic_sub_fetch(&n_owned, 1, __ATOMIC_RELAXED);
		if (inject("close")) {
			int e = errno;
			__real_close(fd);
			errno = e;
			return -1;
		}
	}
	return __real_close(fd);
}
int __real_getaddrinfo(const char *h, const char *s, const struct addrinfo *i, struct addrinfo **r);
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *i, struct addrinfo **r)
{
	if (inside) {
		if (inject("getaddrinfo")) {
			failed_errno = 0;
			return fail_err == EAGAIN ? EAI_AGAIN : fail_err == ENOMEM ? EAI_MEMORY : EAI_FAIL;
		}
		bool was = inside;
		inside = false;
		int rc = gai_hook ? gai_hook(h, s, r) : 1;
		if (rc == 1) {
			rc = __real_getaddrinfo(h, s, i, r);
		}
		inside = was;
		if (rc == 0) {
			n_gai++;
		}
		return rc;
	}
	return __real_getaddrinfo(h, s, i, r);
}
static struct addrinfo *fake_gai;
static void fake_free(struct addrinfo *p)
{
	while (p) {
		struct addrinfo *n = p->ai_next;
		vt_free(p->ai_addr);
		vt_free(p);
		p = n;
	}
}
void __real_freeaddrinfo(struct addrinfo *p);
void __wrap_freeaddrinfo(struct addrinfo *p)
{
	if (inside) {
		if (n_gai <= 0) {
			vt_fail("an address list is released twice");
		}
		n_gai--;
	}
	if (p != NULL && p == fake_gai) {
		fake_gai = NULL;
		fake_free(p);
		return;
	}
	__real_freeaddrinfo(p);
}

/* data calls: short, interrupted, would-block */
static int io_inject(size_t *n)
{
	n_data++;
	if (eintr_run > 0) {
		eintr_run--;
		n_intr++;
		last_io_err = errno = EINTR;
		return -1;
	}
	if (p_eintr && n_intr < 5 && vt_below_r(&io_r, 100) < (unsigned) p_eintr) {
		n_intr++;
		last_io_err = errno = EINTR;
		return -1;
	}
	if (p_eagain && vt_below_r(&io_r, 100) < (unsigned) p_eagain) {
		n_again++;
		last_io_err = errno = EAGAIN;
		return -1;
	}
	if (p_short && *n > 1 && vt_below_r(&io_r, 100) < (unsigned) p_short) {
		size_t m = 1 + vt_below_r(&io_r, *n);
		if (m < *n) {
			n_short++;
			*n = m;
		}
	}
	return 0;
}
static ssize_t io_done(ssize_t r, int flags)
{
	if (r >= 0) {
		if (!(flags & MSG_PEEK)) {
			moved += r;
		}
		last_io_err = 0;
	} else {
		last_io_err = errno;
	}
	return r;
}
#define WIO(name, T, params, args, fl)                                         \
	ssize_t __real_##name params;                                          \
	ssize_t __wrap_##name params                                           \
	{                                                                      \
		if (inside) {                                                  \
			if (inject(#name)) {                                   \
				return io_done(-1, 0);                         \
			}                                                      \
			if (io_inject(&n) != 0) {                              \
				return -1;                                     \
			}                                                      \
			return io_done(__real_##name args, fl);                \
		}                                                              \
		return __real_##name args;                                     \
	}
WIO(send, const void *, (int s, const void *b, size_t n, int f), (s, b, n, f), 0)
WIO(recv, void *, (int s, void *b, size_t n, int f), (s, b, n, f), f)
WIO(sendto, const void *, (int s, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t an), (s, b, n, f, a, an), 0)
WIO(recvfrom, void *, (int s, void *b, size_t n, int f, struct sockaddr *a, socklen_t *an), (s, b, n, f, a, an), f)
WIO(read, void *, (int s, void *b, size_t n), (s, b, n), 0)
WIO(write, const void *, (int s, const void *b, size_t n), (s, b, n), 0)
/* the same for one piece of memory given as a vector */
#define WVEC(name, fl, call)                                                   \
	{                                                                      \
		if (!inside) {                                                 \
			return __real_##name call;                             \
		}                                                              \
		if (inject(#name)) {                                           \
			return io_done(-1, 0);                                 \
		}                                                              \
		size_t n = cnt == 1 ? v->iov_len : 0;                          \
		if (io_inject(&n) != 0) {                                      \
			return -1;                                             \
		}                                                              \
		struct iovec one;                                              \
		if (cnt == 1) {                                                \
			one.iov_base = v->iov_base;                            \
			one.iov_len = n;                                       \
			v = &one;                                              \
		}                                                              \
		return io_done(__real_##name call, fl);                        \
	}
ssize_t __real_readv(int s, const struct iovec *v, int cnt);
ssize_t __wrap_readv(int s, const struct iovec *v, int cnt) WVEC(readv, 0, (s, v, cnt))
ssize_t __real_writev(int s, const struct iovec *v, int cnt);
ssize_t __wrap_writev(int s, const struct iovec *v, int cnt) WVEC(writev, 0, (s, v, cnt))
#define WMSG(name, T)                                                          \
	ssize_t __real_##name(int s, T *m, int f);                             \
	static ssize_t name##_vec(int s, T *m, int f, const struct iovec *v)   \
	{                                                                      \
		struct iovec *was = m->msg_iov;                                \
		struct msghdr *w = (struct msghdr *) (uintptr_t) m;            \
		w->msg_iov = (struct iovec *) (uintptr_t) v;                   \
		ssize_t r = __real_##name(s, m, f);                            \
		w->msg_iov = was;                                              \
		return r;                                                      \
	}                                                                      \
	ssize_t __wrap_##name(int s, T *m, int f)                              \
	{                                                                      \
		const struct iovec *v = m->msg_iov;                            \
		size_t cnt = m->msg_iovlen;                                    \
		if (!inside) {                                                 \
			return __real_##name(s, m, f);                         \
		}                                                              \
		if (inject(#name)) {                                           \
			return io_done(-1, 0);                                 \
		}                                                              \
		size_t n = cnt == 1 ? v->iov_len : 0;                          \
		if (io_inject(&n) != 0) {                                      \
			return -1;                                             \
		}                                                              \
		struct iovec one;                                              \
		if (cnt == 1) {                                                \
			one.iov_base = v->iov_base;                            \
			one.iov_len = n;                                       \
			v = &one;                                              \
		}                                                              \
		return io_done(name##_vec(s, m, f, v), f);                     \
	}
WMSG(sendmsg, const struct msghdr)
WMSG(recvmsg, struct msghdr)

/* ---- the monitor's own sockets ---- */
static bool have6;
static char unix_path[128];
static int path_no;
static const char *new_path(void)
{
	snprintf(unix_path, sizeof(unix_path), "%s/s%d", vt_tmpdir, path_no++);
	return unix_path;
}
static socklen_t mk_addr(struct sockaddr_storage *st, int fam, const char *host, int port)
{
	memset(st, 0, sizeof(*st));
	st->ss_family = (sa_family_t) fam;
	if (fam == AF_INET) {
		struct sockaddr_in *a = (void *) st;
		inet_pton(AF_INET, host, &a->sin_addr);
		a->sin_port = htons((uint16_t) port);
		return sizeof(*a);
	}
	if (fam == AF_INET6) {
		struct sockaddr_in6 *a = (void *) st;
		inet_pton(AF_INET6, host, &a->sin6_addr);
		a->sin6_port = htons((uint16_t) port);
		return sizeof(*a);
	}
	struct sockaddr_un *u = (void *) st;
	memcpy(u->sun_path, host, strlen(host));
	return sizeof(*u);
}
static int port_of(int fd)
{
	struct sockaddr_storage st;
	socklen_t n = sizeof(st);
	if (getsockname(fd, (void *) &st, &n) != 0) {
		return -1;
	}
	return ntohs(st.ss_family == AF_INET ? ((struct sockaddr_in *) &st)->sin_port
					     : ((struct sockaddr_in6 *) &st)->sin6_port);
}
/* A port picked by the system may be picked for another process as well before
 * either listens; only one of them can then. Another process may also hold a
 * port on all addresses for a moment. */
#define MOMENT(tries) (nanosleep(&(struct timespec){0, 5000000}, NULL), (tries) < 40)
/* a listening socket of the monitor; returns the port (or 0) */
static int raw_listen1(int fam, const char *host, int *port)
{
	struct sockaddr_storage st;
	socklen_t n = mk_addr(&st, fam, host, *port);
	int fd = socket(fam, SOCK_STREAM, 0);
	int one = 1;
	if (fd < 0) {
		return -1;
	}
	if (fam != AF_UNIX) {
		setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
	}
	if (bind(fd, (void *) &st, n) != 0 || listen(fd, 64) != 0) {
		int e = errno;
		close(fd);
		errno = e;
		return -1;
	}
	if (fam != AF_UNIX) {
		*port = port_of(fd);
	}
	return fd;
}
static int raw_listen(int fam, const char *host, int *port)
{
	int fd, t = 0;
	while ((fd = raw_listen1(fam, host, port)) < 0 && errno == EADDRINUSE && fam != AF_UNIX && MOMENT(t)) {
		t++;
	}
	return fd;
}
static int raw_connect(int fam, const char *host, int port)
{
	struct sockaddr_storage st;
	socklen_t n = mk_addr(&st, fam, host, port);
	int fd = socket(fam, SOCK_STREAM, 0);
	if (fd < 0) {
		return -1;
	}
	if (connect(fd, (void *) &st, n) != 0) {
		int e = errno;
		close(fd);
		errno = e;
		return -1;
	}
	return fd;
}
static bool wait_ready(int fd, short ev, int ms)
{
	struct pollfd p = {.fd = fd, .events = ev};
	int n;
	do {
		n = poll(&p, 1, ms);
	} while (n < 0 && errno == EINTR);
	return n > 0;
}
static void sock_setup(void)
{
	signal(SIGPIPE, SIG_IGN);
	int port = 0, fd = raw_listen(AF_INET6, "::1", &port);
	if (fd >= 0) {
		int c = raw_connect(AF_INET6, "::1", port);
		have6 = c >= 0;
		if (c >= 0) {
			close(c);
		}
		close(fd);
	}
}
static const char *loop_of(int fam) { return fam == AF_INET6 ? "::1" : "127.0.0.1"; }
static const char *fam_name(int fam)
{
	return fam == AF_INET ? "ipv4" : fam == AF_INET6 ? "ipv6" : "local";
}
static int pick_family(void)
{
	int f = (int) vt_below(have6 ? 3 : 2);
	return f == 0 ? AF_UNIX : f == 1 ? AF_INET : AF_INET6;
}
static void check_owned(const char *what)
{
	VT_CHECK(n_owned == 0, "%s: %d descriptor(s) opened by the object are never closed", what, n_owned);
	VT_CHECK(n_gai == 0, "%s: %d address list(s) are never released", what, n_gai);
}
#define SC(expr) __extension__({ begin(); __typeof__(expr) r_ = (expr); end(); r_; })
static bool in_use(struct sc_sock *s)
{
	s->err[sizeof(s->err) - 1] = '\0';
	return s->family != AF_UNIX && strstr(s->err, strerror(EADDRINUSE)) != NULL;
}
#define LISTEN(OP_, s, h, p)                                                   \
	__extension__({                                                        \
		int rc_, t_ = 0;                                               \
		while ((rc_ = OP_(sc_sock_listen(s, h, p))) != 0 && failed_n == 0 && in_use(s) && MOMENT(t_)) { \
			t_++;                                                  \
		}                                                              \
		rc_;                                                           \
	})
