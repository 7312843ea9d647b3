/* K01 (MODE 1): streams over sockets and pipes. K03 (MODE 3): failing calls.
 * K04 (MODE 4): addresses, modes, timeouts, notifications. */
#include "vt.h"
#include "sc_sock.h"
#include "sock.inc"

void vt_setup(void)
{
	sock_setup();
#if MODE == 4
	/* names resolve without a network: numbers and localhost only */
#endif
}

#if MODE == 3 || MODE == 4
/* a name that stands for several addresses */
static int n_multi, multi_port[6], multi_fam[6];
static int many_addresses(const char *h, const char *sv, struct addrinfo **r)
{
	(void) sv;
	if (h == NULL || strcmp(h, "many.test") != 0) {
		return 1;
	}
	struct addrinfo *head = NULL, **t = &head;
	for (int i = 0; i < n_multi; i++) {
		struct addrinfo *a = vt_calloc(1, sizeof(*a));
		struct sockaddr_storage *st = vt_calloc(1, sizeof(*st));
		a->ai_family = multi_fam[i];
		a->ai_socktype = SOCK_STREAM;
		a->ai_protocol = 0;
		a->ai_addrlen = mk_addr(st, multi_fam[i], loop_of(multi_fam[i]), multi_port[i]);
		a->ai_addr = (void *) st;
		*t = a;
		t = &a->ai_next;
	}
	fake_gai = head;
	*r = head;
	return 0;
}
#endif

#if MODE == 1
/* ------------------------------------------------------------------ K01 */
struct dir {
	uint64_t key, sent, rcvd;
	bool closed;
};
static unsigned char byte_at(const struct dir *d, uint64_t pos)
{
	return (unsigned char) (vt_mix(d->key + pos / 8) >> (8 * (pos % 8)));
}
static void fill(const struct dir *d, char *b, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		b[i] = (char) byte_at(d, d->sent + i);
	}
}
static void verify(const struct dir *d, const char *b, size_t n, const char *who)
{
	for (size_t i = 0; i < n; i++) {
		if ((unsigned char) b[i] != byte_at(d, d->rcvd + i)) {
			vt_fail("%s: byte %" PRIu64 " of the stream arrives as %02x instead of %02x (%zu bytes received in this call)", who,
				d->rcvd + i, (unsigned char) b[i], byte_at(d, d->rcvd + i), n);
		}
	}
	vt_event(1);
}
struct conn {
	struct sc_sock s[2];
	struct dir d[2]; /* d[i]: sent by s[i] */
};
#define BUFN (300 * 1024)
static char *big;
static char *tail; /* exactly sized copies */

static size_t pick_len(void)
{
	switch (vt_below(6)) {
	case 0: return 1;
	case 1: return 1 + vt_below(16);
	case 2: return 1 + vt_below(300);
	case 3: return 1 + vt_below(5000);
	case 4: return 1 + vt_below(70000);
	default: return vt_chance(1, 4) ? 1 + vt_below(BUFN - 1) : 1 + vt_below(1000);
	}
}
/* a receive which would block must find nothing: the bytes in flight have to
 * arrive */
static void must_arrive(struct conn *c, int i)
{
	struct dir *d = &c->d[1 - i];
	if (n_again == 0 && d->sent > d->rcvd) {
		if (!wait_ready(c->s[i].fdt.fd, POLLIN, 10000)) {
			vt_fail("%" PRIu64 " bytes were reported sent, only %" PRIu64 " ever arrive", d->sent, d->rcvd);
		}
	}
}
static void op_send(struct conn *c, int i)
{
	struct dir *d = &c->d[i];
	size_t n = pick_len();
	int flags = vt_chance(1, 4) ? MSG_NOSIGNAL : 0;
	fill(d, big, n);
	int rc = SC(sc_sock_send(&c->s[i], big, (int) n, flags));
	vt_log("send(%d, %zu) = %d %s", i, n, rc, rc < 0 ? strerror(errno) : "");
	VT_CHECK(rc == -1 || (rc > 0 && (size_t) rc <= n), "send of %zu bytes returns %d", n, rc);
	VT_CHECK(moved == (rc < 0 ? 0 : rc), "send of %zu bytes reports %d, %ld were taken by the connection", n, rc, moved);
	if (rc < 0) {
		VT_CHECK(errno == EAGAIN, "a send that would block reports errno %d (%s)", errno, strerror(errno));
		VT_CHECK(last_io_err == EAGAIN, "send reports would-block, the connection said %s", strerror(last_io_err));
		vt_class(n_again ? "send.would-block" : "send.full");
		return;
	}
	if ((size_t) rc < n) {
		vt_class("send.partial");
	}
	if (n_intr) {
		vt_class("send.interrupted");
	}
	d->sent += (uint64_t) rc;
	vt_state(vt_hash(vt_hash(1, (uint64_t) rc), n));
}
static bool op_recv(struct conn *c, int i)
{
	struct dir *d = &c->d[1 - i];
	size_t n = pick_len();
	bool peek = vt_chance(1, 10);
	char *b = tail + (BUFN - n); /* ends at the end of the block */
	b[0] = 0x55;
	int rc = SC(sc_sock_recv(&c->s[i], b, (int) n, peek ? MSG_PEEK : 0));
	vt_log("recv(%d, %zu%s) = %d %s", i, n, peek ? ", peek" : "", rc, rc < 0 ? strerror(errno) : "");
	VT_CHECK(rc == -1 || (rc > 0 && (size_t) rc <= n), "receive of %zu bytes returns %d", n, rc);
	VT_CHECK(moved == (rc < 0 || peek ? 0 : rc), "receive of %zu bytes%s reports %d, %ld were taken from the connection", n,
		 peek ? " (peek)" : "", rc, moved);
	if (rc < 0 && errno == EAGAIN) {
		VT_CHECK(last_io_err == EAGAIN, "receive reports would-block, the connection said %s", strerror(last_io_err));
		vt_class(n_again ? "recv.would-block" : "recv.empty");
		must_arrive(c, i);
		return true;
	}
	if (rc < 0) {
		VT_CHECK(d->closed, "receive on an open connection fails: errno %d (%s), %s", errno, strerror(errno), sc_sock_error(&c->s[i]));
		VT_CHECK(errno == EOF, "orderly close is reported as errno %d", errno);
		VT_CHECK(d->rcvd == d->sent, "end of stream after %" PRIu64 " of %" PRIu64 " bytes", d->rcvd, d->sent);
		vt_class("end-of-stream");
		return false;
	}
	verify(d, b, (size_t) rc, "receive");
	VT_CHECK(d->rcvd + (uint64_t) rc <= d->sent, "more bytes arrive than were sent");
	if (n_intr) {
		vt_class("recv.interrupted");
	}
	if (peek) {
		vt_class("peek");
	} else {
		d->rcvd += (uint64_t) rc;
	}
	vt_state(vt_hash(vt_hash(2, (uint64_t) rc), n));
	return true;
}
static bool connect_pair(struct sc_sock *l, struct sc_sock *cl, struct sc_sock *acc, int fam, bool block, const char *host, const char *port)
{
	(void) fam;
	int rc = SC(sc_sock_connect(cl, host, port, NULL, NULL));
	if (rc != 0 && !block && errno == EAGAIN) {
		if (!wait_ready(cl->fdt.fd, POLLOUT, 10000)) {
			vt_fail("a connection in progress never completes");
		}
		rc = SC(sc_sock_finish_connect(cl));
		vt_class("finish-connect");
	}
	VT_CHECK(rc == 0, "connecting fails: %s", sc_sock_error(cl));
	if (acc == NULL) {
		return true;
	}
	wait_ready(l->fdt.fd, POLLIN, 10000);
	rc = SC(sc_sock_accept(l, acc));
	VT_CHECK(rc == 0, "accepting fails: %s", sc_sock_error(l));
	return true;
}
static bool same_end(int a, int b)
{
	struct sockaddr_storage x, y;
	socklen_t n = sizeof(x), m = sizeof(y);
	memset(&x, 0, sizeof(x));
	memset(&y, 0, sizeof(y));
	if (getpeername(a, (void *) &x, &n) != 0 || getsockname(b, (void *) &y, &m) != 0) {
		return false;
	}
	if (x.ss_family == AF_INET) {
		struct sockaddr_in *p = (void *) &x, *q = (void *) &y;
		return p->sin_port == q->sin_port && p->sin_addr.s_addr == q->sin_addr.s_addr;
	}
	struct sockaddr_in6 *p = (void *) &x, *q = (void *) &y;
	return p->sin6_port == q->sin6_port && memcmp(&p->sin6_addr, &q->sin6_addr, 16) == 0;
}
static void empty_ops(struct conn *c)
{
	char one = 'x';
	for (int i = 0; i < 2; i++) {
		int rc = SC(sc_sock_send(&c->s[i], &one, 0, 0));
		VT_CHECK(rc == 0 && n_data == 0, "sending nothing returns %d", rc);
		rc = SC(sc_sock_recv(&c->s[i], &one, 0, 0));
		VT_CHECK(rc == 0 && n_data == 0, "receiving nothing returns %d", rc);
	}
}
/* flags reach the system: nothing waits, nothing is signalled */
static volatile sig_atomic_t n_pipe;
static void on_pipe(int sig) { n_pipe += sig == SIGPIPE; }
static void flag_case(void)
{
	int fam = pick_family(), sp[2], rc;
	struct sc_sock s;
	struct timeval tv = {3, 0};
	if (fam == AF_UNIX) {
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp) != 0) {
			vt_die("socketpair");
		}
	} else {
		int port = 0, l = raw_listen(fam, loop_of(fam), &port);
		sp[1] = raw_connect(fam, loop_of(fam), port);
		sp[0] = accept(l, NULL, NULL);
		close(l);
		if (sp[0] < 0 || sp[1] < 0) {
			vt_die("connect: %s", strerror(errno));
		}
	}
	p_short = p_eintr = p_eagain = 0;
	sc_sock_init(&s, 0, true, fam);
	s.fdt.fd = sp[0];
	own(sp[0]);
	/* would wait for three seconds */
	setsockopt(sp[0], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
	setsockopt(sp[0], SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
	if (vt_chance(1, 2)) {
		uint64_t t0 = vt_now_us();
		rc = SC(sc_sock_recv(&s, tail, 10, MSG_DONTWAIT));
		VT_CHECK(rc == -1 && errno == EAGAIN, "a receive told not to wait returns %d, errno %d", rc, errno);
		VT_CHECK(vt_now_us() - t0 < 2500000, "a receive told not to wait waits");
		vt_class("flag.dont-wait");
	}
	if (vt_chance(1, 4)) {
		int sz = 4096, calls = 0;
		setsockopt(sp[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
		uint64_t t0 = vt_now_us();
		while ((rc = SC(sc_sock_send(&s, big, 60000, MSG_DONTWAIT))) > 0) {
			VT_CHECK(calls++ < 5000, "a connection nobody reads takes everything");
		}
		VT_CHECK(rc == -1 && errno == EAGAIN, "a send told not to wait returns %d, errno %d", rc, errno);
		VT_CHECK(vt_now_us() - t0 < 2500000, "a send told not to wait waits");
		vt_class("flag.dont-wait-send");
	}
	if (vt_chance(1, 2)) { /* all of it, in one call */
		size_t n = 2 + vt_below(3000), k = 1 + vt_below(n - 1);
		struct dir d = {.key = vt_rnd()};
		fill(&d, big, n);
		if (write(sp[1], big, k) != (ssize_t) k || write(sp[1], big + k, n - k) != (ssize_t) (n - k)) {
			vt_die("write");
		}
		wait_ready(sp[0], POLLIN, 10000);
		rc = SC(sc_sock_recv(&s, tail, (int) n, MSG_WAITALL));
		VT_CHECK(rc == (int) n, "a receive told to wait for all %zu bytes returns %d", n, rc);
		verify(&d, tail, n, "waiting for all");
		vt_class("flag.wait-all");
	}
	/* the other side is gone */
	struct sigaction sa = {.sa_handler = on_pipe}, old;
	sigaction(SIGPIPE, &sa, &old);
	struct linger lg = {1, 0};
	setsockopt(sp[1], SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
	close(sp[1]);
	n_pipe = 0;
	for (int i = 0; i < 3; i++) { /* reset first, then a broken pipe */
		rc = SC(sc_sock_send(&s, big, 10, MSG_NOSIGNAL));
		VT_CHECK(rc == -1 && (errno == EPIPE || errno == ECONNRESET), "sending to a closed connection returns %d, errno %d", rc, errno);
		VT_CHECK(*sc_sock_error(&s), "sending to a closed connection fails without a text");
	}
	VT_CHECK(n_pipe == 0, "a send told not to signal raises SIGPIPE");
	sigaction(SIGPIPE, &old, NULL);
	vt_class("flag.no-signal");
	rc = SC(sc_sock_term(&s));
	VT_CHECK(rc == 0, "closing fails");
	check_owned("flags");
}
static void stream_case(void)
{
	int fam = pick_family();
	int nc = vt_chance(1, 3) ? 2 + (int) vt_below(3) : 1;
	bool lblock = vt_chance(1, 2), cblock = vt_chance(1, 2);
	char port[16] = "0";
	const char *host = fam == AF_UNIX ? new_path() : loop_of(fam);
	struct sc_sock l;
	struct conn c[4];

	vt_class(fam_name(fam));
	p_short = p_eintr = p_eagain = 0;
	sc_sock_init(&l, 7, lblock, fam);
	int rc = LISTEN(SC, &l, host, port);
	VT_CHECK(rc == 0, "listening on %s fails: %s", host, sc_sock_error(&l));
	if (fam != AF_UNIX) {
		snprintf(port, sizeof(port), "%d", port_of(l.fdt.fd));
	}
	struct sc_sock acc[4];
	memset(acc, 0, sizeof(acc));
	for (int i = 0; i < nc; i++) {
		sc_sock_init(&c[i].s[0], i, cblock, fam);
		sc_sock_init(&acc[i], 100 + i, lblock, fam);
		bool later = nc > 1;
		connect_pair(&l, &c[i].s[0], later ? NULL : &acc[i], fam, cblock, host, port);
	}
	if (nc > 1) {
		vt_class("several-clients");
		for (int i = 0; i < nc; i++) {
			if (!wait_ready(l.fdt.fd, POLLIN, 10000)) {
				vt_fail("%d connected clients, only %d can be accepted", nc, i);
			}
			rc = SC(sc_sock_accept(&l, &acc[i]));
			VT_CHECK(rc == 0, "accepting fails: %s", sc_sock_error(&l));
		}
	}
	if (!lblock) {
		struct sc_sock no;
		sc_sock_init(&no, 0, false, fam);
		rc = SC(sc_sock_accept(&l, &no));
		VT_CHECK(rc == -1 && errno == EAGAIN, "accepting without clients returns %d, errno %d", rc, errno);
		VT_CHECK(no.fdt.fd == -1, "an accept that would block hands out descriptor %d", no.fdt.fd);
		vt_class("accept.would-block");
	}
	/* which accepted connection belongs to which client */
	bool used[4] = {0};
	for (int i = 0; i < nc; i++) {
		int k;
		for (k = 0; k < nc; k++) {
			if (!used[k] && (fam == AF_UNIX ? k == i : same_end(acc[k].fdt.fd, c[i].s[0].fdt.fd))) {
				break;
			}
		}
		VT_CHECK(k < nc, "no accepted connection belongs to client %d", i);
		used[k] = true;
		c[i].s[1] = acc[k];
		for (int j = 0; j < 2; j++) {
			c[i].d[j] = (struct dir){.key = vt_rnd()};
		}
		if (vt_chance(1, 2)) {
			int sz = 2048 << vt_below(5);
			setsockopt(c[i].s[0].fdt.fd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
			if (fam == AF_UNIX) {
				setsockopt(c[i].s[1].fdt.fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof(sz));
			}
		}
		for (int j = 0; j < 2; j++) {
			begin();
			inside = false;
			sc_sock_set_blocking(&c[i].s[j], false);
		}
		empty_ops(&c[i]);
	}
	p_short = (int) (vt_chance(1, 2) ? vt_below(60) : 0);
	p_eintr = (int) (vt_chance(1, 2) ? vt_below(60) : 0);
	p_eagain = (int) (vt_chance(1, 2) ? vt_below(40) : 0);
	io_r.s = vt_rnd();
	int bias = (int) vt_below(3);
	for (int n = 20 + (int) vt_below(120); n > 0; n--) {
		struct conn *x = &c[vt_below((uint64_t) nc)];
		int i = (int) vt_below(2);
		bool snd = vt_chance(bias == 0 ? 1 : bias == 1 ? 2 : 3, 4);
		if (snd) {
			op_send(x, i);
		} else {
			op_recv(x, i);
		}
	}
	/* an orderly close, with everything sent before it still on its way */
	for (int i = 0; i < nc; i++) {
		struct conn *x = &c[i];
		int first = (int) vt_below(2);
		while (x->d[1 - first].rcvd < x->d[1 - first].sent) {
			op_recv(x, first);
		}
		if (vt_chance(3, 4)) {
			op_send(x, first);
		}
		uint64_t on_way = x->d[first].sent - x->d[first].rcvd;
		rc = SC(sc_sock_term(&x->s[first]));
		VT_CHECK(rc == 0, "closing a connection fails: %s", sc_sock_error(&x->s[first]));
		x->d[first].closed = true;
		if (on_way) {
			vt_class("closed-with-bytes-on-the-way");
		}
		while (op_recv(x, 1 - first)) {
			if (n_again == 0 && x->d[first].rcvd == x->d[first].sent && !wait_ready(x->s[1 - first].fdt.fd, POLLIN, 10000)) {
				vt_fail("the close of the other side is never reported");
			}
		}
		rc = SC(sc_sock_term(&x->s[1 - first]));
		VT_CHECK(rc == 0, "closing a connection fails: %s", sc_sock_error(&x->s[1 - first]));
		vt_state(vt_hash(x->d[0].rcvd, x->d[1].rcvd));
	}
	if (vt_want_sample()) {
		vt_sample("%s, %d connection(s), first moved %" PRIu64 " and %" PRIu64 " bytes, short %d%% interrupted %d%% would-block %d%%", fam_name(fam), nc,
			  c[0].d[0].rcvd, c[0].d[1].rcvd, p_short, p_eintr, p_eagain);
	}
	rc = SC(sc_sock_term(&l));
	VT_CHECK(rc == 0, "closing the listener fails: %s", sc_sock_error(&l));
	check_owned("after closing everything");
	if (fam == AF_UNIX) {
		unlink(host);
	}
}
static void pipe_case(void)
{
	struct sc_sock_pipe p;
	struct dir d = {.key = vt_rnd()};
	p_short = p_eintr = p_eagain = 0;
	int type = (int) vt_rnd();
	int rc = SC(sc_sock_pipe_init(&p, type));
	VT_CHECK(rc == 0, "creating a pipe fails: %s", sc_sock_pipe_err(&p));
	VT_CHECK(p.fdt.type == type && p.fdt.fd == p.fds[0], "a pipe's descriptor for polling is not its reading end");
	fcntl(p.fds[0], F_SETFL, O_NONBLOCK);
	fcntl(p.fds[1], F_SETFL, O_NONBLOCK);
	p_short = (int) (vt_chance(1, 2) ? vt_below(60) : 0);
	p_eintr = (int) (vt_chance(1, 2) ? vt_below(60) : 0);
	p_eagain = (int) (vt_chance(1, 2) ? vt_below(40) : 0);
	io_r.s = vt_rnd();
	vt_class("pipe");
	for (int n = 20 + (int) vt_below(200); n > 0; n--) {
		size_t len = vt_chance(1, 20) ? 0 : pick_len();
		if (vt_chance(1, 2)) {
			fill(&d, big, len);
			rc = SC(sc_sock_pipe_write(&p, big, (unsigned) len));
			vt_log("write(%zu) = %d", len, rc);
			VT_CHECK(rc == -1 || (rc >= 0 && (size_t) rc <= len), "writing %zu bytes returns %d", len, rc);
			VT_CHECK(moved == (rc < 0 ? 0 : rc), "writing %zu bytes reports %d, %ld were taken by the pipe", len, rc, moved);
			if (rc < 0) {
				VT_CHECK(errno == EAGAIN && last_io_err == EAGAIN, "a write that would block reports errno %d", errno);
				vt_class("pipe.full");
			} else {
				d.sent += (uint64_t) rc;
				vt_class(n_intr ? "pipe.interrupted" : (size_t) rc < len ? "pipe.partial" : "pipe.whole");
			}
		} else {
			char *b = tail + (BUFN - len);
			rc = SC(sc_sock_pipe_read(&p, b, (unsigned) len));
			vt_log("read(%zu) = %d", len, rc);
			VT_CHECK(rc == -1 || (rc >= 0 && (size_t) rc <= len), "reading %zu bytes returns %d", len, rc);
			VT_CHECK(moved == (rc < 0 ? 0 : rc), "reading %zu bytes reports %d, %ld were taken from the pipe", len, rc, moved);
			if (rc < 0) {
				VT_CHECK(errno == EAGAIN && last_io_err == EAGAIN, "a read that would block reports errno %d", errno);
				VT_CHECK(n_again || d.rcvd == d.sent, "%" PRIu64 " bytes were written, only %" PRIu64 " ever arrive", d.sent, d.rcvd);
			} else {
				VT_CHECK(rc > 0 || len == 0 || 0, "reading %zu bytes from an open pipe reports end of stream", len);
				verify(&d, b, (size_t) rc, "pipe");
				d.rcvd += (uint64_t) rc;
				VT_CHECK(d.rcvd <= d.sent, "more bytes arrive than were written");
			}
		}
		vt_state(vt_hash(vt_hash(3, (uint64_t) rc), len));
	}
	rc = SC(sc_sock_pipe_term(&p));
	VT_CHECK(rc == 0, "closing a pipe fails: %s", sc_sock_pipe_err(&p));
	rc = SC(sc_sock_pipe_term(&p));
	VT_CHECK(rc == 0, "closing a pipe again fails");
	check_owned("pipe");
}
/* blocking connections, one thread per direction and side, real interruptions */
struct worker {
	struct sc_sock *s;
	struct sc_sock_pipe *p;
	struct dir d;
	uint64_t total, seed;
	bool send;
	uint64_t intr;
	int peer_flags;
};
static void on_alrm(int sig) { (void) sig; }
static void *work(void *arg)
{
	struct worker *w = arg;
	vt_rng r = {.s = w->seed};
	io_r.s = w->seed ^ 99;
	p_short = (int) vt_below_r(&r, 30);
	p_eintr = (int) vt_below_r(&r, 30);
	p_eagain = 0;
	char *b = vt_malloc(80000);
	while (w->send ? w->d.sent < w->total : true) {
		size_t n = 1 + (vt_below_r(&r, 3) == 0 ? vt_below_r(&r, 79999) : vt_below_r(&r, 2000));
		int rc;
		if (w->send) {
			if (n > w->total - w->d.sent) {
				n = w->total - w->d.sent;
			}
			fill(&w->d, b, n);
			rc = w->s ? SC(sc_sock_send(w->s, b, (int) n, 0)) : SC(sc_sock_pipe_write(w->p, b, (unsigned) n));
		} else {
			if (w->p && w->d.rcvd == w->total) {
				break;
			}
			rc = w->s ? SC(sc_sock_recv(w->s, b, (int) n, 0)) : SC(sc_sock_pipe_read(w->p, b, (unsigned) n));
		}
		w->intr += (uint64_t) n_intr;
		if (rc < 0 && !w->send && w->s && errno == EOF) {
			break;
		}
		if (rc <= 0 || (size_t) rc > n) {
			vt_fail("a blocking %s of %zu bytes returns %d (errno %d: %s)", w->send ? "send" : "receive", n, rc, errno, strerror(errno));
		}
		if (moved != rc) {
			vt_fail("a blocking %s reports %d bytes, %ld were moved", w->send ? "send" : "receive", rc, moved);
		}
		if (w->send) {
			w->d.sent += (uint64_t) rc;
		} else {
			verify(&w->d, b, (size_t) rc, "blocking receive");
			w->d.rcvd += (uint64_t) rc;
		}
		if (vt_below_r(&r, 30) == 0) {
			struct timespec t = {0, (long) vt_below_r(&r, 200000)};
			nanosleep(&t, NULL);
		}
	}
	if (w->send && w->s) {
		shutdown(w->s->fdt.fd, SHUT_WR);
	}
	vt_free(b);
	return NULL;
}
static void thread_case(void)
{
	bool is_pipe = vt_chance(1, 4);
	int fam = pick_family();
	struct sc_sock l, a, b;
	struct sc_sock_pipe p;
	struct worker w[4];
	pthread_t t[4];
	int nw = is_pipe ? 2 : 4;
	char port[16] = "0";
	const char *host = fam == AF_UNIX ? new_path() : loop_of(fam);

	memset(w, 0, sizeof(w));
	p_short = p_eintr = p_eagain = 0;
	if (is_pipe) {
		VT_CHECK(SC(sc_sock_pipe_init(&p, 0)) == 0, "creating a pipe fails");
	} else {
		sc_sock_init(&l, 0, true, fam);
		sc_sock_init(&a, 0, true, fam);
		sc_sock_init(&b, 0, true, fam);
		VT_CHECK(LISTEN(SC, &l, host, port) == 0, "listening fails: %s", sc_sock_error(&l));
		if (fam != AF_UNIX) {
			snprintf(port, sizeof(port), "%d", port_of(l.fdt.fd));
		}
		connect_pair(&l, &a, &b, fam, true, host, port);
		int sz = 4096 << vt_below(6);
		setsockopt(a.fdt.fd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
		setsockopt(b.fdt.fd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
	}
	uint64_t key[2] = {vt_rnd(), vt_rnd()}, total[2] = {vt_below(600000), vt_below(200000)};
	for (int i = 0; i < nw; i++) {
		int dir = i / 2;
		w[i].send = i % 2 == 0;
		w[i].s = is_pipe ? NULL : (w[i].send == (dir == 0)) ? &a : &b;
		w[i].p = is_pipe ? &p : NULL;
		w[i].d.key = key[dir];
		w[i].total = total[dir];
		w[i].seed = vt_rnd();
	}
	struct sigaction sa = {.sa_handler = on_alrm};
	sigaction(SIGALRM, &sa, NULL);
	struct itimerval it = {{0, 300 + (long) vt_below(2000)}, {0, 500}}, off = {{0, 0}, {0, 0}};
	setitimer(ITIMER_REAL, &it, NULL);
	for (int i = 0; i < nw; i++) {
		if (pthread_create(&t[i], NULL, work, &w[i]) != 0) {
			vt_die("pthread_create");
		}
	}
	for (int i = 0; i < nw; i++) {
		pthread_join(t[i], NULL);
	}
	setitimer(ITIMER_REAL, &off, NULL);
	for (int i = 0; i < nw; i += 2) {
		VT_CHECK(w[i + 1].d.rcvd == total[i / 2], "%" PRIu64 " of %" PRIu64 " bytes arrive", w[i + 1].d.rcvd, total[i / 2]);
		vt_state(vt_hash(w[i].d.sent, w[i].intr));
		if (w[i].intr + w[i + 1].intr) {
			vt_class("blocking.interrupted");
		}
	}
	if (vt_want_sample()) {
		vt_sample("blocking %s: %" PRIu64 " and %" PRIu64 " bytes by %d threads, interrupted %" PRIu64 " times", is_pipe ? "pipe" : fam_name(fam), total[0],
			  is_pipe ? 0 : total[1], nw, w[0].intr + w[1].intr);
	}
	vt_class(is_pipe ? "blocking.pipe" : "blocking.both-directions");
	if (is_pipe) {
		VT_CHECK(SC(sc_sock_pipe_term(&p)) == 0, "closing a pipe fails");
	} else {
		SC(sc_sock_term(&a));
		SC(sc_sock_term(&b));
		SC(sc_sock_term(&l));
		if (fam == AF_UNIX) {
			unlink(host);
		}
	}
	check_owned("blocking");
}
void vt_case(uint64_t n)
{
	if (big == NULL) {
		big = malloc(BUFN);
		tail = malloc(BUFN);
	}
#ifdef THREADS
	(void) n;
	thread_case();
#else
	if (n % 25 == 7) {
		flag_case();
	} else if (n % 5 == 4) {
		pipe_case();
	} else {
		stream_case();
	}
#endif
}
#endif

#if MODE == 3
/* ------------------------------------------------------------------ K03 */
#include <sys/resource.h>
static struct {
	bool on, more, close_too;
	int at, err;
} plan;
static bool close_failed;
int __real_unlink(const char *p);

/* one operation of the code under test, with the planned failure */
static void arm(void)
{
	begin();
	if (plan.on) {
		fail_at = plan.at;
		fail_err = plan.err;
		fail_more = plan.more;
	}
}
#define OP(expr) __extension__({ arm(); __typeof__(expr) r_ = (expr); end(); r_; })
static const int errs[] = {ENOMEM, EMFILE, ENFILE, ENOBUFS, EACCES, EINVAL, EIO, EPERM, EADDRINUSE, ECONNRESET, ETIMEDOUT, ENETUNREACH};
static void pick_plan(int max)
{
	memset(&plan, 0, sizeof(plan));
	plan.on = vt_chance(9, 10);
	plan.at = 1 + (int) vt_below((uint64_t) max);
	plan.err = errs[vt_below(sizeof(errs) / sizeof(errs[0]))];
	plan.more = vt_chance(1, 3);
}
static char last_what[200];
/* calls that do the same thing, one of which the code chooses */
static const char *call_class(const char *c)
{
	static const char *same[][2] = {{"accept4", "accept"}, {"sendto", "send"}, {"sendmsg", "send"}, {"write", "send"}, {"writev", "send"}, {"readv", "recv"}, {"recvmsg", "recv"}, {"recvfrom", "recv"},
					{"read", "recv"}, {"pipe2", "pipe"}, {"epoll_pwait", "epoll_wait"}, {"epoll_create", "epoll_create1"}};
	for (size_t i = 0; i < sizeof(same) / sizeof(same[0]); i++) {
		if (strcmp(c, same[i][0]) == 0) {
			return same[i][1];
		}
	}
	return c;
}
static void failed_class(const char *what)
{
	char b[80];
	snprintf(last_what, sizeof(last_what), "%s: %s fails as call %ld with '%s'", what, failed_call, sys_n, strerror(failed_errno));
	snprintf(b, sizeof(b), "%s.%s", what, call_class(failed_call));
	vt_class(b);
	vt_state(vt_hash(vt_hash(vt_hash_bytes(5, what, strlen(what)), vt_hash_bytes(6, failed_call, strlen(failed_call))), (uint64_t) failed_errno * 64 + (uint64_t) sys_n));
}
static void check_msg(const char *what, const char *msg, int err)
{
	VT_CHECK(msg != NULL && strnlen(msg, 128) < 128, "%s: the error text does not end", what);
	VT_CHECK(*msg != '\0', "%s fails (%s) without an error text", what, failed_call ? failed_call : "really");
	VT_CHECK(strstr(msg, strerror(0)) == NULL, "%s fails with the text '%s'", what, msg);
	if (err != 0) {
		VT_CHECK(strstr(msg, strerror(err)) != NULL, "%s fails because of '%s', the text says '%s'", what, strerror(err), msg);
	}
}
static bool talk(int a, int b)
{
	char x = (char) vt_rnd(), y = (char) ~x;
	for (int i = 0; i < 2; i++) {
		int from = i ? b : a, to = i ? a : b;
		if (send(from, &x, 1, MSG_NOSIGNAL) != 1 || !wait_ready(to, POLLIN, 10000) || recv(to, &y, 1, 0) != 1 || x != y) {
			return false;
		}
	}
	return true;
}
/* terminate, terminate again */
static void term_twice(struct sc_sock *s, const char *what)
{
	bool closes = s->fdt.fd >= 0;
	plan.on = plan.close_too;
	plan.at = 1;
	plan.more = false;
	int rc = OP(sc_sock_term(s));
	plan.on = false;
	if (closes && failed_n) {
		VT_CHECK(rc < 0, "%s: close fails but terminating returns %d", what, rc);
		check_msg("terminating", sc_sock_error(s), failed_errno);
		vt_class("term.close-fails");
	} else {
		VT_CHECK(rc == 0, "%s: terminating returns %d: %s", what, rc, sc_sock_error(s));
	}
	rc = OP(sc_sock_term(s));
	VT_CHECK(rc == 0, "%s: terminating again returns %d", what, rc);
	check_owned(what);
}
static void listen_case(int fam)
{
	struct sc_sock s;
	char port[16] = "0";
	const char *host = fam == AF_UNIX ? new_path() : loop_of(fam);
	char path[128];
	snprintf(path, sizeof(path), "%s", host);
	bool block = vt_chance(1, 2);
	sc_sock_init(&s, 3, block, fam);
	pick_plan(fam == AF_UNIX ? 6 : 9);
	plan.close_too = vt_chance(1, 4);
	for (int round = 0; round < 2; round++) {
		int rc = LISTEN(OP, &s, path, port);
		if (failed_n) {
			failed_class("listen");
			VT_CHECK(rc < 0, "listen returns %d although %s failed (%s)", rc, failed_call, strerror(failed_errno));
			check_msg("listen", sc_sock_error(&s), failed_errno);
		} else {
			VT_CHECK(rc == 0, "listening on %s fails: %s", path, sc_sock_error(&s));
			int c = raw_connect(fam, path, fam == AF_UNIX ? 0 : port_of(s.fdt.fd));
			VT_CHECK(c >= 0, "nobody listens on %s after listen succeeded", path);
			int a = accept(s.fdt.fd, NULL, NULL);
			VT_CHECK(a >= 0 && talk(a, c), "a listening socket does not take connections");
			close(a);
			close(c);
			vt_class(round ? "listen.after-failure" : "listen");
		}
		if (rc != 0 && vt_chance(1, 2)) { /* tried again at once */
			vt_class("listen.retried");
		} else {
			term_twice(&s, "listen");
		}
		plan.on = plan.close_too = false;
	}
	if (fam == AF_UNIX) {
		unlink(path);
	}
}
/* a port nobody listens on, and nobody can until drop_dead() */
static int dead_fd[8], n_dead;
static int dead_port(int fam)
{
	struct sockaddr_storage st;
	socklen_t n = mk_addr(&st, fam, loop_of(fam), 0);
	int fd = socket(fam, SOCK_STREAM, 0);
	if (fd < 0 || bind(fd, (void *) &st, n) != 0) {
		vt_die("bind: %s", strerror(errno));
	}
	dead_fd[n_dead++] = fd;
	return port_of(fd);
}
static void drop_dead(void)
{
	while (n_dead > 0) {
		close(dead_fd[--n_dead]);
	}
}
static void connect_case(int fam)
{
	struct sc_sock s;
	int port = 0, lfd = -1, live = 0;
	char path[128], ports[16];
	bool block = vt_chance(1, 2), many = fam != AF_UNIX && vt_chance(1, 3);
	const char *src = fam != AF_UNIX && !many && vt_chance(1, 3) ? loop_of(fam) : NULL;
	snprintf(path, sizeof(path), "%s", fam == AF_UNIX ? new_path() : loop_of(fam));
	lfd = raw_listen(fam, path, &port);
	if (lfd < 0) {
		vt_die("listen: %s", strerror(errno));
	}
	snprintf(ports, sizeof(ports), "%d", port);
	if (many) {
		n_multi = 2 + (int) vt_below(2);
		live = (int) vt_below((uint64_t) n_multi + 1); /* n_multi: none lives */
		for (int i = 0; i < n_multi; i++) {
			multi_fam[i] = have6 && vt_chance(1, 2) ? AF_INET6 : AF_INET;
			multi_port[i] = dead_port(multi_fam[i]);
			if (i == live) {
				multi_fam[i] = fam;
				multi_port[i] = port;
			}
		}
		snprintf(path, sizeof(path), "many.test");
		gai_hook = many_addresses;
	}
	int want_fam = many && have6 && vt_chance(1, 2) ? (vt_chance(1, 2) ? AF_INET6 : AF_INET) : fam;
	sc_sock_init(&s, 3, block, want_fam);
	pick_plan(fam == AF_UNIX ? 5 : many ? 16 : 8);
	plan.close_too = vt_chance(1, 4);
	for (int round = 0; round < 2; round++) {
		int rc = OP(sc_sock_connect(&s, path, ports, src, NULL)), e = errno;
		bool inj = failed_n > 0;
		if (inj) {
			failed_class(many ? "connect-many" : "connect");
		}
		if (rc < 0 && !block && e == EAGAIN && !(inj && strcmp(failed_call, "connect") == 0 && failed_errno == EAGAIN)) {
			VT_CHECK(s.fdt.fd >= 0, "a connection in progress has no descriptor");
			wait_ready(s.fdt.fd, POLLOUT, 10000);
			bool keep = plan.on;
			plan.on = false;
			rc = OP(sc_sock_finish_connect(&s));
			plan.on = keep;
			vt_class("in-progress");
			if (many && rc < 0) {
				/* the address in progress was a dead one */
				check_msg("finishing a connect", sc_sock_error(&s), ECONNREFUSED);
				goto next;
			}
			VT_CHECK(rc == 0, "finishing a connect fails: %s", sc_sock_error(&s));
		}
		if (rc < 0) {
			if (!inj) {
				VT_CHECK(many && live == n_multi, "connecting to %s:%s fails: %s", path, ports, sc_sock_error(&s));
				check_msg("connect", sc_sock_error(&s), ECONNREFUSED);
				vt_class("connect-many.none-lives");
				VT_CHECK(s.family == want_fam, "a failed connect leaves the socket with family %d instead of %d", s.family, want_fam);
			} else {
				check_msg("connect", sc_sock_error(&s), many ? 0 : failed_errno);
			}
		} else {
			VT_CHECK(!inj || many, "connect returns %d although %s failed (%s)", rc, failed_call, strerror(failed_errno));
			VT_CHECK(!many || live < n_multi, "connect succeeds though nobody listens");
			VT_CHECK(wait_ready(lfd, POLLIN, 10000), "connect succeeds but no connection arrives");
			int a = accept(lfd, NULL, NULL);
			VT_CHECK(a >= 0 && talk(a, s.fdt.fd), "a connected socket does not talk to the listener");
			close(a);
			vt_class(round ? "connect.after-failure" : many ? "connect-many" : "connect");
		}
		if (rc != 0 && vt_chance(1, 2)) { /* tried again at once */
			vt_class("connect.retried");
			plan.on = plan.close_too = false;
			continue;
		}
next:
		term_twice(&s, "connect");
		plan.on = plan.close_too = false;
		while (wait_ready(lfd, POLLIN, 0)) {
			close(accept(lfd, NULL, NULL));
		}
	}
	gai_hook = NULL;
	close(lfd);
	if (fam == AF_UNIX) {
		unlink(path);
	}
}
static void accept_case(int fam)
{
	struct sc_sock l, in;
	char path[128];
	bool block = vt_chance(1, 2);
	snprintf(path, sizeof(path), "%s", fam == AF_UNIX ? new_path() : loop_of(fam));
	sc_sock_init(&l, 0, block, fam);
	sc_sock_init(&in, 9, block, fam);
	VT_CHECK(LISTEN(OP, &l, path, "0") == 0, "listening fails: %s", sc_sock_error(&l));
	int base = n_owned;
	pick_plan(fam == AF_UNIX ? 3 : 4);
	if (!block && vt_chance(1, 8)) {
		plan.on = true;
		plan.at = 1;
		plan.err = EAGAIN;
	} else if (vt_chance(1, 8)) {
		plan.on = true;
		plan.at = 1;
		plan.err = ECONNABORTED;
	}
	for (int round = 0; round < 3; round++) {
		int c = raw_connect(fam, path, fam == AF_UNIX ? 0 : port_of(l.fdt.fd));
		if (c < 0) {
			vt_die("connect: %s", strerror(errno));
		}
		wait_ready(l.fdt.fd, POLLIN, 10000);
		int rc = OP(sc_sock_accept(&l, &in)), e = errno;
		if (failed_n) {
			failed_class("accept");
			VT_CHECK(rc < 0, "accept returns %d although %s failed (%s)", rc, failed_call, strerror(failed_errno));
			if (failed_errno == EAGAIN && strcmp(call_class(failed_call), "accept") == 0) {
				VT_CHECK(e == EAGAIN, "an accept that would block leaves errno %d", e);
				vt_class("accept.retryable");
			} else {
				check_msg("accept", sc_sock_error(&l), failed_errno);
			}
			VT_CHECK(n_owned == base, "a failed accept leaves a descriptor open");
			bool t = plan.on;
			plan.on = false;
			VT_CHECK(OP(sc_sock_term(&in)) == 0, "terminating the socket of a failed accept fails");
			plan.on = t;
			while (wait_ready(l.fdt.fd, POLLIN, 0)) {
				close(accept(l.fdt.fd, NULL, NULL));
			}
		} else {
			VT_CHECK(rc == 0, "accept fails: %s", sc_sock_error(&l));
			VT_CHECK(talk(in.fdt.fd, c), "the accepted connection is not the client's");
			vt_class(round ? "accept.after-failure" : "accept");
			plan.on = false;
			VT_CHECK(OP(sc_sock_term(&in)) == 0, "closing an accepted connection fails");
			VT_CHECK(OP(sc_sock_term(&in)) == 0, "closing an accepted connection again fails");
		}
		close(c);
		plan.on = false;
	}
	term_twice(&l, "accept");
	/* a listener that is gone */
	int rc = OP(sc_sock_accept(&l, &in));
	VT_CHECK(rc < 0, "accepting on a terminated socket returns %d", rc);
	check_msg("accepting on a terminated socket", sc_sock_error(&l), EBADF);
	check_owned("accept");
	if (fam == AF_UNIX) {
		unlink(path);
	}
}
static void option_case(int fam)
{
	struct sc_sock s;
	int sp = socket(fam, SOCK_STREAM, 0);
	sc_sock_init(&s, 0, true, fam);
	bool live = vt_chance(3, 4);
	if (live) {
		s.fdt.fd = sp;
		own(sp);
	} else {
		close(sp);
	}
	for (int i = 0; i < 4; i++) {
		static const char *const nm[] = {"set-blocking", "receive-timeout", "send-timeout", "finish-connect"};
		unsigned k = (unsigned) vt_below(4);
		pick_plan(k == 0 ? 2 : 1);
		plan.on = vt_chance(1, 2);
		s.err[0] = '\0';
		int rc;
		switch (k) {
		case 0: rc = OP(sc_sock_set_blocking(&s, vt_chance(1, 2))); break;
		case 1: rc = OP(sc_sock_set_rcvtimeo(&s, (int) vt_below(5000))); break;
		case 2: rc = OP(sc_sock_set_sndtimeo(&s, (int) vt_below(5000))); break;
		default: {
			static const int errs[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET, EPIPE, EACCES, ENOENT, EADDRNOTAVAIL, EIO, EINTR, EAGAIN, EINPROGRESS};
			so_error = vt_chance(1, 2) ? errs[vt_below(sizeof(errs) / sizeof(errs[0]))] : 0;
			rc = OP(sc_sock_finish_connect(&s));
			int se = so_error;
			so_error = 0;
			if (se && live && !failed_n) {
				VT_CHECK(rc < 0, "finishing a connect returns %d although it ended with %s", rc, strerror(se));
				check_msg("finishing a connect", sc_sock_error(&s), se);
				vt_class("finish-connect.failed-attempt");
				continue;
			}
			break;
		}
		}
		if (failed_n || !live) {
			VT_CHECK(rc < 0, "%s returns %d although %s", nm[k], rc, live ? "the call failed" : "the socket is not open");
			check_msg(nm[k], sc_sock_error(&s), failed_n ? failed_errno : EBADF);
			if (failed_n) {
				failed_class(nm[k]);
			} else {
				vt_class("not-open");
			}
		} else {
			VT_CHECK(rc == 0, "%s fails: %s", nm[k], sc_sock_error(&s));
		}
	}
	plan.on = false;
	plan.close_too = vt_chance(1, 2);
	term_twice(&s, "options");
}
static void io_case(int fam)
{
	int sp[2];
	struct sc_sock s;
	char b[64] = "hello";
	if (fam == AF_UNIX) {
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp) != 0) {
			vt_die("socketpair");
		}
	} else {
		int port = 0, l = raw_listen(fam, loop_of(fam), &port);
		sp[1] = raw_connect(fam, loop_of(fam), port);
		sp[0] = accept(l, NULL, NULL);
		close(l);
	}
	sc_sock_init(&s, 0, true, fam);
	s.fdt.fd = sp[0];
	own(sp[0]);
	bool sending = vt_chance(1, 2), real = vt_chance(1, 2);
	if (sending && real) {
		/* the other side is gone */
		if (write(sp[0], b, 1) != 1) {
			vt_die("write");
		}
		close(sp[1]);
		sp[1] = -1;
		struct timespec t = {0, 100000};
		int rc = 0, e = 0;
		for (int i = 0; i < 20000 && rc >= 0; i++) {
			rc = OP(sc_sock_send(&s, b, 5, MSG_NOSIGNAL));
			e = errno;
			if (rc >= 0) {
				nanosleep(&t, NULL);
			}
		}
		VT_CHECK(rc == -1 && (e == EPIPE || e == ECONNRESET), "sending to a closed connection returns %d, errno %d", rc, e);
		check_msg("send", sc_sock_error(&s), e);
		vt_class("send.peer-gone");
	} else if (real) {
		struct sc_sock none;
		sc_sock_init(&none, 0, true, fam);
		VT_CHECK(OP(sc_sock_send(&none, b, 5, 0)) == -1, "sending on a socket that is not open succeeds");
		check_msg("send", sc_sock_error(&none), EBADF);
		VT_CHECK(OP(sc_sock_recv(&none, b, 5, 0)) == -1, "receiving on a socket that is not open succeeds");
		check_msg("recv", sc_sock_error(&none), EBADF);
		vt_class("not-open");
	} else {
		pick_plan(1);
		plan.on = true;
		if (!sending && write(sp[1], b, 5) != 5) {
			vt_die("write");
		}
		int rc = sending ? OP(sc_sock_send(&s, b, 5, 0)) : OP(sc_sock_recv(&s, b, 5, 0)), e = errno;
		VT_CHECK(failed_n == 0 || rc == -1, "%s returns %d although the call failed", sending ? "send" : "recv", rc);
		if (failed_n) {
			VT_CHECK(e != EAGAIN && e != EOF, "a failing call is reported as errno %d", e);
			check_msg(sending ? "send" : "recv", sc_sock_error(&s), failed_errno);
			failed_class("io");
		}
		plan.on = false;
		rc = sending ? OP(sc_sock_send(&s, b, 5, 0)) : OP(sc_sock_recv(&s, b, 5, 0));
		VT_CHECK(rc == 5, "the next %s returns %d", sending ? "send" : "recv", rc);
	}
	plan.on = false;
	term_twice(&s, "io");
	if (sp[1] >= 0) {
		close(sp[1]);
	}
}
static void pipe_fail_case(void)
{
	struct sc_sock_pipe p;
	unsigned v = (unsigned) vt_rnd(), got = 0;
	pick_plan(1);
	int rc = OP(sc_sock_pipe_init(&p, 5));
	if (failed_n) {
		failed_class("pipe");
		VT_CHECK(rc < 0, "creating a pipe returns %d although %s failed", rc, failed_call);
		check_msg("creating a pipe", sc_sock_pipe_err(&p), failed_errno);
		plan.on = false;
		VT_CHECK(p.fdt.fd < 0, "a pipe that could not be created offers descriptor %d for polling", p.fdt.fd);
		VT_CHECK(OP(sc_sock_pipe_term(&p)) == 0, "terminating a pipe that could not be created fails");
		check_owned("pipe");
		VT_CHECK(OP(sc_sock_pipe_init(&p, 5)) == 0, "creating a pipe after a failure fails");
		vt_class("pipe.after-failure");
	} else {
		VT_CHECK(rc == 0, "creating a pipe fails: %s", sc_sock_pipe_err(&p));
	}
	pick_plan(1);
	rc = OP(sc_sock_pipe_write(&p, &v, sizeof(v)));
	if (failed_n) {
		VT_CHECK(rc < 0, "writing to a pipe returns %d although it failed", rc);
		failed_class("pipe");
		plan.on = false;
		rc = OP(sc_sock_pipe_write(&p, &v, sizeof(v)));
	}
	VT_CHECK(rc == sizeof(v), "writing to a pipe returns %d", rc);
	pick_plan(1);
	rc = OP(sc_sock_pipe_read(&p, &got, sizeof(got)));
	if (failed_n) {
		VT_CHECK(rc < 0, "reading a pipe returns %d although it failed", rc);
		failed_class("pipe");
		plan.on = false;
		rc = OP(sc_sock_pipe_read(&p, &got, sizeof(got)));
	}
	VT_CHECK(rc == sizeof(v) && got == v, "reading a pipe returns %d", rc);
	pick_plan(2);
	rc = OP(sc_sock_pipe_term(&p));
	if (failed_n) {
		VT_CHECK(rc < 0, "terminating a pipe returns %d although close failed", rc);
		check_msg("terminating a pipe", sc_sock_pipe_err(&p), failed_errno);
		failed_class("pipe");
	} else {
		VT_CHECK(rc == 0, "terminating a pipe fails: %s", sc_sock_pipe_err(&p));
	}
	plan.on = false;
	VT_CHECK(OP(sc_sock_pipe_term(&p)) == 0, "terminating a pipe again fails");
	check_owned("pipe");
}
/* another thread's poll fails for a reason of its own */
static void *other_poll(void *arg)
{
	struct sc_sock_poll p;
	struct sc_sock_fd f = {.fd = -1};
	(void) arg;
	if (sc_sock_poll_init(&p) != 0) {
		vt_die("poll of another thread");
	}
	VT_CHECK(sc_sock_poll_add(&p, &f, SC_SOCK_READ, &f) < 0, "adding a descriptor that is none succeeds");
	check_msg("adding a descriptor that is none", sc_sock_poll_err(&p), EBADF);
	VT_CHECK(sc_sock_poll_term(&p) == 0, "terminating another thread's poll fails");
	return NULL;
}
static void poll_fail_case(void)
{
	struct sc_sock_poll p;
	struct sc_sock_fd f = {.fd = -1};
	int pp[2];
	if (pipe(pp) != 0) {
		vt_die("pipe");
	}
	f.fd = pp[0];
	long live0 = vt_live;
	bool oom = vt_chance(1, 4);
	pick_plan(1);
	if (oom) {
		plan.on = false;
		vt_fail_nth(1, false);
	}
	uint64_t refused = vt_alloc_failed;
	int rc = OP(sc_sock_poll_init(&p));
	vt_fail_off();
	if (vt_alloc_failed != refused || failed_n) {
		VT_CHECK(rc < 0, "creating a poll returns %d although it failed", rc);
		check_msg("creating a poll", sc_sock_poll_err(&p), oom ? ENOMEM : failed_errno);
		if (oom) {
			vt_class("poll.refused-memory");
		} else {
			failed_class("poll");
		}
		plan.on = false;
		VT_CHECK(OP(sc_sock_poll_term(&p)) == 0, "terminating a poll that could not be created fails");
		VT_CHECK(OP(sc_sock_poll_wait(&p, 0)) == -1, "waiting on a poll that could not be created succeeds");
		check_owned("poll");
		VT_CHECK(vt_live == live0, "a poll that could not be created keeps memory");
		VT_CHECK(OP(sc_sock_poll_init(&p)) == 0, "creating a poll after a failure fails");
	} else {
		VT_CHECK(rc == 0, "creating a poll fails: %s", sc_sock_poll_err(&p));
	}
	for (int i = 0; i < 6; i++) {
		pick_plan(1);
		plan.on = vt_chance(1, 2);
		unsigned ev = i < 2 ? (i ? SC_SOCK_READ : SC_SOCK_READ | SC_SOCK_EDGE) : SC_SOCK_READ;
		bool add = i % 3 == 0, del = i % 3 == 2;
		rc = add ? OP(sc_sock_poll_add(&p, &f, ev, &f)) : del ? OP(sc_sock_poll_del(&p, &f, SC_SOCK_READ | SC_SOCK_EDGE, &f))
							       : OP(sc_sock_poll_wait(&p, 0));
		if (failed_n) {
			VT_CHECK(rc < 0, "%s returns %d although %s failed", add ? "adding" : del ? "removing" : "waiting", rc, failed_call);
			check_msg("poll operation", sc_sock_poll_err(&p), failed_errno);
			failed_class(add ? "poll-add" : del ? "poll-del" : "poll-wait");
			plan.on = false;
			if (vt_chance(1, 6)) {
				pthread_t other;
				if (pthread_create(&other, NULL, other_poll, NULL) != 0 || pthread_join(other, NULL) != 0) {
					vt_die("pthread_create");
				}
				check_msg("poll operation, another thread's having failed since,", sc_sock_poll_err(&p), failed_errno);
				vt_class("failures-of-two-threads");
			}
			rc = add ? OP(sc_sock_poll_add(&p, &f, ev, &f)) : del ? OP(sc_sock_poll_del(&p, &f, SC_SOCK_READ | SC_SOCK_EDGE, &f))
								       : OP(sc_sock_poll_wait(&p, 0));
		}
		VT_CHECK(rc == 0, "%s after a failure returns %d: %s", add ? "adding" : del ? "removing" : "waiting", rc, sc_sock_poll_err(&p));
		if (add) {
			/* it is really registered */
			char x = 0;
			plan.on = false;
			if (write(pp[1], &x, 1) != 1) {
				vt_die("write");
			}
			rc = OP(sc_sock_poll_wait(&p, 1000));
			VT_CHECK(rc == 1 && sc_sock_poll_data(&p, 0) == &f && sc_sock_poll_event(&p, 0) == SC_SOCK_READ, "an added descriptor is not reported (%d)", rc);
			if (read(pp[0], &x, 1) != 1) {
				vt_die("read");
			}
		}
	}
	pick_plan(1);
	rc = OP(sc_sock_poll_term(&p));
	if (failed_n) {
		VT_CHECK(rc < 0, "terminating a poll returns %d although close failed", rc);
		check_msg("terminating a poll", sc_sock_poll_err(&p), failed_errno);
		failed_class("poll");
	} else {
		VT_CHECK(rc == 0, "terminating a poll fails");
	}
	plan.on = false;
	VT_CHECK(OP(sc_sock_poll_term(&p)) == 0, "terminating a poll again fails");
	check_owned("poll");
	VT_CHECK(vt_live == live0, "a terminated poll keeps memory");
	close(pp[0]);
	close(pp[1]);
}
static void name_case(int fam)
{
	struct sc_sock s;
	char b[100];
	int port = 0;
	char path[128];
	snprintf(path, sizeof(path), "%s", fam == AF_UNIX ? new_path() : loop_of(fam));
	int l = raw_listen(fam, path, &port);
	sc_sock_init(&s, 0, true, fam);
	s.fdt.fd = l;
	own(l);
	bool remote = vt_chance(1, 2);
	pick_plan(1);
	memset(b, 'x', sizeof(b));
	const char *r = remote ? OP(sc_sock_remote_str(&s, b, sizeof(b))) : OP(sc_sock_local_str(&s, b, sizeof(b)));
	int err = failed_n ? failed_errno : remote ? ENOTCONN : 0;
	if (err) {
		VT_CHECK(r == NULL && b[0] == '\0', "describing an endpoint fails but returns '%s'", r ? r : "(null)");
		check_msg("describing an endpoint", sc_sock_error(&s), err);
		if (failed_n) {
			failed_class("name");
		} else {
			vt_class("name.not-connected");
		}
	} else {
		VT_CHECK(r == b && b[0] != '\0', "describing an endpoint returns nothing");
	}
	pick_plan(2);
	memset(b, 'x', sizeof(b));
	arm();
	sc_sock_print(&s, b, sizeof(b));
	end();
	VT_CHECK(memchr(b, '\0', sizeof(b)) && strstr(b, "Remote()"), "a socket without a peer is printed as '%.99s'", b);
	plan.on = false;
	term_twice(&s, "names");
	if (fam == AF_UNIX) {
		unlink(path);
	}
}
static void notify_case(void)
{
	char path[160];
	struct sockaddr_storage st;
	snprintf(path, sizeof(path), "%s", new_path());
	int d = socket(AF_UNIX, SOCK_DGRAM, 0);
	socklen_t n = mk_addr(&st, AF_UNIX, path, 0);
	bool there = vt_chance(3, 4);
	if (there && bind(d, (void *) &st, n) != 0) {
		vt_die("bind: %s", strerror(errno));
	}
	setenv("NOTIFY_SOCKET", path, 1);
	for (int i = 0; i < 2; i++) {
		pick_plan(3);
		if (i == 1) {
			plan.on = false;
		}
		int rc = OP(sc_sock_notify_systemd("READY=1\n")), e = errno;
		if (failed_n && strcmp(failed_call, "close") != 0) {
			VT_CHECK(rc < 0 && e == failed_errno, "a notification returns %d, errno %d although %s failed", rc, e, failed_call);
			failed_class("notify");
		} else if (!there) {
			VT_CHECK(rc < 0 && (e == ENOENT || failed_n), "a notification to nobody returns %d, errno %d", rc, e);
		} else if (!failed_n) {
			VT_CHECK(rc == 0, "a notification fails: %s", strerror(e));
		}
		check_owned("notify");
	}
	close(d);
	unlink(path);
}
static void real_case(int fam)
{
	struct sc_sock s;
	char path[200], port[16] = "0";
	memset(&plan, 0, sizeof(plan));
	sc_sock_init(&s, 0, vt_chance(1, 2), fam);
	unsigned k = (unsigned) vt_below(7);
	int rc, err = 0, other = -1, p = 0;
	struct rlimit old, lim;
	switch (k) {
	case 0: /* nobody listens */
		if (fam == AF_UNIX) {
			snprintf(path, sizeof(path), "%s", new_path());
			err = ENOENT;
		} else {
			snprintf(path, sizeof(path), "%s", loop_of(fam));
			snprintf(port, sizeof(port), "%d", dead_port(fam));
			err = ECONNREFUSED;
		}
		rc = OP(sc_sock_connect(&s, path, port, NULL, NULL));
		if (rc < 0 && !s.blocking && errno == EAGAIN) {
			wait_ready(s.fdt.fd, POLLOUT, 10000);
			rc = OP(sc_sock_finish_connect(&s));
		}
		vt_class("real.refused");
		break;
	case 1: /* the address is taken */
		snprintf(path, sizeof(path), "%s", loop_of(fam == AF_UNIX ? AF_INET : fam));
		s.family = fam = fam == AF_UNIX ? AF_INET : fam;
		other = raw_listen(fam, path, &p);
		snprintf(port, sizeof(port), "%d", p);
		rc = OP(sc_sock_listen(&s, path, port));
		err = EADDRINUSE;
		vt_class("real.in-use");
		break;
	case 2: /* no such name */
		s.family = fam = fam == AF_UNIX ? AF_INET : fam;
		rc = vt_chance(1, 2) ? OP(sc_sock_connect(&s, "300.1.2.3.4", "80", NULL, NULL)) : OP(sc_sock_listen(&s, "300.1.2.3.4", "80"));
		vt_class("real.no-name");
		break;
	case 3: /* no such service */
		s.family = fam = fam == AF_UNIX ? AF_INET : fam;
		rc = vt_chance(1, 2) ? OP(sc_sock_connect(&s, loop_of(fam), "no-such-port", NULL, NULL)) : OP(sc_sock_listen(&s, loop_of(fam), "no-such-port"));
		vt_class("real.no-service");
		break;
	case 4: /* no such directory */
		s.family = fam = AF_UNIX;
		snprintf(path, sizeof(path), "%s/no/such", vt_tmpdir);
		rc = vt_chance(1, 2) ? OP(sc_sock_connect(&s, path, NULL, NULL, NULL)) : OP(sc_sock_listen(&s, path, NULL));
		err = ENOENT;
		vt_class("real.no-directory");
		break;
	case 5: /* not an address of this machine */
		s.family = fam = AF_INET;
		if (vt_chance(1, 2)) {
			rc = OP(sc_sock_listen(&s, "203.0.113.7", "0"));
		} else {
			rc = OP(sc_sock_connect(&s, "127.0.0.1", "9", "203.0.113.7", NULL));
		}
		err = EADDRNOTAVAIL;
		vt_class("real.not-ours");
		break;
	default: /* no descriptor left */
		snprintf(path, sizeof(path), "%s", fam == AF_UNIX ? new_path() : loop_of(fam));
		other = raw_listen(fam, path, &p);
		snprintf(port, sizeof(port), "%d", p);
		int top = dup(0);
		close(top);
		getrlimit(RLIMIT_NOFILE, &old);
		lim = old;
		lim.rlim_cur = (rlim_t) top;
		setrlimit(RLIMIT_NOFILE, &lim);
		switch (vt_below(3)) {
		case 0: rc = OP(sc_sock_connect(&s, path, port, NULL, NULL)); break;
		case 1: rc = OP(sc_sock_listen(&s, path, "0")); break;
		default: {
			struct sc_sock l;
			sc_sock_init(&l, 0, true, fam);
			l.fdt.fd = other;
			int c = -1;
			setrlimit(RLIMIT_NOFILE, &old);
			c = raw_connect(fam, path, p);
			lim.rlim_cur = (rlim_t) (c > top ? c : top);
			int hole = top == c ? dup(0) : -1;
			if (hole >= 0) {
				close(hole);
				lim.rlim_cur = (rlim_t) hole;
			}
			setrlimit(RLIMIT_NOFILE, &lim);
			rc = OP(sc_sock_accept(&l, &s));
			memcpy(s.err, l.err, sizeof(s.err));
			setrlimit(RLIMIT_NOFILE, &old);
			close(c);
			break;
		}
		}
		setrlimit(RLIMIT_NOFILE, &old);
		err = EMFILE;
		vt_class("real.no-descriptors");
		if (strcmp(port, "0") != 0 && rc < 0 && fam != AF_UNIX && strstr(sc_sock_error(&s), strerror(EMFILE)) == NULL) {
			err = 0; /* looking the name up may need a descriptor as well */
		}
		break;
	}
	VT_CHECK(rc < 0, "an impossible operation (%u) returns %d", k, rc);
	check_msg("an impossible operation", sc_sock_error(&s), err);
	vt_state(vt_hash(vt_hash(77, k), (uint64_t) fam));
	term_twice(&s, "impossible");
	if (other >= 0) {
		close(other);
	}
	if (fam == AF_UNIX) {
		unlink(path);
	}
}
void vt_case(uint64_t n)
{
	int fds = vt_fd_count();
	int fam = pick_family();
	io_r.s = vt_rnd();
	memset(&plan, 0, sizeof(plan));
	switch (n % 12) {
	case 0: case 1: listen_case(fam); break;
	case 2: case 3: case 4: connect_case(fam); break;
	case 5: accept_case(fam); break;
	case 6: option_case(fam); break;
	case 7: io_case(fam); break;
	case 8: pipe_fail_case(); break;
	case 9: poll_fail_case(); break;
	case 10: vt_chance(1, 2) ? name_case(fam) : notify_case(); break;
	default: real_case(fam); break;
	}
	drop_dead();
	VT_CHECK(vt_fd_count() == fds, "%d descriptor(s) are left open", vt_fd_count() - fds);
	if (vt_want_sample() && last_what[0]) {
		vt_sample("%s", last_what);
	}
	last_what[0] = '\0';
}
#endif

#if MODE == 4
/* ------------------------------------------------------------------ K04 */
static unsigned net_a, net_b; /* 127.a.b.x belongs to this process */
static void my_ip(char *b, unsigned last)
{
	snprintf(b, 32, "127.%u.%u.%u", net_a, net_b, last);
}
static void nets(void)
{
	unsigned id = (unsigned) getpid();
	net_a = 1 + id / 250 % 250;
	net_b = 1 + id % 250;
	if (chdir(vt_tmpdir) != 0) {
		vt_die("chdir: %s", strerror(errno));
	}
}
static bool nonblocking(int fd) { return (fcntl(fd, F_GETFL) & O_NONBLOCK) != 0; }
static void addr_of(int fd, bool peer, struct sockaddr_storage *st, socklen_t *n)
{
	*n = sizeof(*st);
	memset(st, 0, sizeof(*st));
	if ((peer ? getpeername(fd, (void *) st, n) : getsockname(fd, (void *) st, n)) != 0) {
		vt_die("name of %d: %s", fd, strerror(errno));
	}
}
static void text_of(const struct sockaddr_storage *st, socklen_t n, char *b, size_t len)
{
	char t[INET6_ADDRSTRLEN];
	if (st->ss_family == AF_INET) {
		const struct sockaddr_in *a = (const void *) st;
		inet_ntop(AF_INET, &a->sin_addr, t, sizeof(t));
		snprintf(b, len, "%s:%d", t, ntohs(a->sin_port));
	} else if (st->ss_family == AF_INET6) {
		const struct sockaddr_in6 *a = (const void *) st;
		inet_ntop(AF_INET6, &a->sin6_addr, t, sizeof(t));
		snprintf(b, len, "%s:%d", t, ntohs(a->sin6_port));
	} else {
		size_t k = n - offsetof(struct sockaddr_un, sun_path);
		const char *p = ((const struct sockaddr_un *) st)->sun_path;
		snprintf(b, len, "%.*s", n <= offsetof(struct sockaddr_un, sun_path) ? 0 : (int) k, p);
	}
}
/* both descriptions, with every buffer size around what they need */
static void check_names(struct sc_sock *s, bool connected)
{
	char want[2][160];
	for (int peer = 0; peer < (connected ? 2 : 1); peer++) {
		struct sockaddr_storage st;
		socklen_t n;
		addr_of(s->fdt.fd, peer, &st, &n);
		text_of(&st, n, want[peer], sizeof(want[peer]));
		size_t need = strlen(want[peer]) + 1;
		size_t size = vt_chance(1, 2) ? need + vt_below(3) : 1 + vt_below(need + 8);
		char *b = malloc(size);
		memset(b, 'x', size);
		const char *r = SC(peer ? sc_sock_remote_str(s, b, size) : sc_sock_local_str(s, b, size));
		char cut[160];
		snprintf(cut, size < sizeof(cut) ? size : sizeof(cut), "%s", want[peer]);
		VT_CHECK(r == b && memchr(b, '\0', size) != NULL && strcmp(b, cut) == 0, "the %s end %s is described as %s in %zu bytes", peer ? "remote" : "local",
			 want[peer], vt_quote(b, strnlen(b, size)), size);
		vt_class(size < need ? "described.cut" : size == need ? "described.exact" : want[peer][0] ? "described" : "described.unnamed");
		free(b);
	}
	char all[400];
	snprintf(all, sizeof(all), "Local(%s), Remote(%s) ", want[0], connected ? want[1] : "");
	size_t size = vt_chance(1, 2) ? strlen(all) + 1 : 1 + vt_below(strlen(all) + 20);
	char *b = malloc(size);
	begin();
	sc_sock_print(s, b, size);
	end();
	char cut[400];
	snprintf(cut, size < sizeof(cut) ? size : sizeof(cut), "%s", all);
	VT_CHECK(memchr(b, '\0', size) && strcmp(b, cut) == 0, "the socket is printed as %s instead of '%s' in %zu bytes", vt_quote(b, strnlen(b, size)), cut, size);
	free(b);
}
/* any name a connection can have */
static void name_case(void)
{
	struct sc_sock s;
	int sp[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp) != 0) {
		vt_die("socketpair");
	}
	sc_sock_init(&s, 0, true, AF_INET);
	s.fdt.fd = sp[0];
	for (int i = 0; i < 4; i++) {
		for (int k = 0; k < 2; k++) {
			struct sockaddr_storage *st = &fake_name[k];
			memset(st, 0, sizeof(*st));
			int port = vt_chance(1, 3) ? (vt_chance(1, 2) ? 0 : 65535) : (int) vt_below(65536);
			switch (vt_below(3)) {
			case 0: {
				struct sockaddr_in *a = (void *) st;
				a->sin_family = AF_INET;
				a->sin_port = htons((uint16_t) port);
				a->sin_addr.s_addr = vt_chance(1, 4) ? 0xffffffff : (uint32_t) vt_rnd();
				fake_len[k] = sizeof(*a);
				vt_class("name.ipv4");
				break;
			}
			case 1: {
				struct sockaddr_in6 *a = (void *) st;
				a->sin6_family = AF_INET6;
				a->sin6_port = htons((uint16_t) port);
				int z = (int) vt_below(17), n = vt_chance(1, 3) ? 0 : (int) vt_below(17);
				for (int b = 0; b < 16; b++) {
					a->sin6_addr.s6_addr[b] = b >= z && b < z + n ? 0 : (uint8_t) vt_rnd();
				}
				if (vt_chance(1, 4)) { /* as long as it gets: an embedded IPv4 address or all digits */
					memset(a->sin6_addr.s6_addr, vt_chance(1, 2) ? 0xff : 0, 12);
					a->sin6_addr.s6_addr[10] = a->sin6_addr.s6_addr[11] = 0xff;
					memset(a->sin6_addr.s6_addr + 12, 0xff, 4);
				}
				fake_len[k] = sizeof(*a);
				vt_class("name.ipv6");
				break;
			}
			default: {
				struct sockaddr_un *a = (void *) st;
				a->sun_family = AF_UNIX;
				size_t l = vt_chance(1, 4) ? 0 : vt_chance(1, 3) ? 106 + vt_below(2) : 1 + vt_below(107);
				for (size_t b = 0; b < l; b++) {
					a->sun_path[b] = (char) (1 + vt_below(255));
				}
				fake_len[k] = (socklen_t) (offsetof(struct sockaddr_un, sun_path) + l + (l ? 1 : 0));
				vt_class("name.local");
			}
			}
		}
		check_names(&s, true);
	}
	fake_len[0] = fake_len[1] = 0;
	close(sp[0]);
	close(sp[1]);
	vt_state(vt_hash_bytes(vt_hash_bytes(5, &fake_name[0], 110), &fake_name[1], 110));
}
static void check_mode(struct sc_sock *s, bool block, const char *what)
{
	VT_CHECK(nonblocking(s->fdt.fd) == !block, "%s asked to be %s is %s", what, block ? "blocking" : "non-blocking",
		 nonblocking(s->fdt.fd) ? "non-blocking" : "blocking");
}
static void flip_mode(struct sc_sock *s)
{
	bool app = vt_chance(1, 2);
	fcntl(s->fdt.fd, F_SETFL, (fcntl(s->fdt.fd, F_GETFL) & ~O_APPEND) | (app ? O_APPEND : 0));
	for (int i = 0; i < 3; i++) {
		bool b = vt_chance(1, 2);
		VT_CHECK(SC(sc_sock_set_blocking(s, b)) == 0, "changing the mode fails: %s", sc_sock_error(s));
		check_mode(s, b, "a socket");
		VT_CHECK(((fcntl(s->fdt.fd, F_GETFL) & O_APPEND) != 0) == app, "changing the mode changes another flag");
	}
	vt_class("mode-changed");
}
static void check_timeo(struct sc_sock *s)
{
	struct timeval tv;
	int set[2] = {0, 0};
	for (int i = 0; i < 4; i++) {
		int w = (int) vt_below(2);
		static const int edge[] = {0, 1, 999, 1000, 1001, 999999, 86400000, 2000000000};
		int ms = vt_chance(1, 3) ? edge[vt_below(8)] : (int) vt_below(vt_chance(1, 2) ? 2000 : 10000000);
		int rc = SC(w ? sc_sock_set_sndtimeo(s, ms) : sc_sock_set_rcvtimeo(s, ms));
		VT_CHECK(rc == 0, "setting a timeout of %d ms fails: %s", ms, sc_sock_error(s));
		set[w] = ms;
		for (int k = 0; k < 2; k++) {
			socklen_t n = sizeof(tv);
			getsockopt(s->fdt.fd, SOL_SOCKET, k ? SO_SNDTIMEO : SO_RCVTIMEO, &tv, &n);
			int64_t us = (int64_t) tv.tv_sec * 1000000 + tv.tv_usec, want = (int64_t) set[k] * 1000;
			/* the system rounds up to its clock tick */
			VT_CHECK(us >= want && us < want + 20000 && (want != 0 || us == 0), "the %s timeout is %" PRId64 " us after it was set to %d ms", k ? "send" : "receive",
				 us, set[k]);
		}
		vt_class(ms % 1000 ? "timeout.fraction" : "timeout.whole");
	}
	SC(sc_sock_set_sndtimeo(s, 0));
	SC(sc_sock_set_rcvtimeo(s, 0));
}
static const char *one_of_mine(char *b)
{
	my_ip(b, 1 + (unsigned) vt_below(250));
	return b;
}
static int any_family(void) { return vt_chance(1, 2) ? AF_UNIX : vt_chance(1, 2) ? AF_INET : AF_INET6; }
/* a name with addresses of both families: the socket's own is taken, the first of them */
static void both_case(void)
{
	struct sc_sock s;
	int lfd[6], own = vt_chance(1, 2) ? AF_INET : AF_INET6, want = -1;
	bool block = vt_chance(1, 2);
	n_multi = 2 + (int) vt_below(5);
	for (int i = 0; i < n_multi; i++) {
		multi_fam[i] = vt_chance(1, 2) ? AF_INET : AF_INET6;
		multi_port[i] = 0;
		lfd[i] = raw_listen(multi_fam[i], loop_of(multi_fam[i]), &multi_port[i]);
		if (lfd[i] < 0) {
			vt_die("listen: %s", strerror(errno));
		}
		if (want < 0 && multi_fam[i] == own) {
			want = i;
		}
	}
	gai_hook = many_addresses;
	sc_sock_init(&s, 0, block, own);
	int rc = SC(sc_sock_connect(&s, "many.test", "1", NULL, NULL));
	gai_hook = NULL;
	if (rc != 0 && !block && errno == EAGAIN) {
		wait_ready(s.fdt.fd, POLLOUT, 10000);
		rc = SC(sc_sock_finish_connect(&s));
	}
	VT_CHECK(rc == 0, "connecting to a name with %d addresses fails: %s", n_multi, sc_sock_error(&s));
	if (want < 0) {
		want = 0;
		vt_class("only-other-family");
	} else if (want > 0) {
		vt_class("own-family-first");
	}
	VT_CHECK(wait_ready(lfd[want], POLLIN, 10000), "a %s socket asked to connect to a name with %d addresses does not go to address %d, the first of its family",
		 fam_name(own), n_multi, want);
	VT_CHECK(s.family == multi_fam[want], "a socket connected in family %d says %d", multi_fam[want], s.family);
	check_mode(&s, block, "a connecting socket");
	check_names(&s, true);
	for (int i = 0; i < n_multi; i++) {
		VT_CHECK(i == want || !wait_ready(lfd[i], POLLIN, 0), "one connect connects to addresses %d and %d", want, i);
		close(lfd[i]);
	}
	SC(sc_sock_term(&s));
	check_owned("several addresses");
	vt_state(vt_hash(vt_hash((uint64_t) own, (uint64_t) n_multi), (uint64_t) want));
}
/* a source port, the address being any; free when asked for, but others may take it */
static void port_case(void)
{
	int fam = have6 && vt_chance(1, 2) ? AF_INET6 : AF_INET, port = 0, rc = -1;
	int lfd = raw_listen(fam, loop_of(fam), &port);
	char ports[16], srcp[16];
	struct sc_sock s;
	bool block = vt_chance(1, 2);
	struct sockaddr_storage st;
	socklen_t n;
	if (lfd < 0) {
		vt_die("listen: %s", strerror(errno));
	}
	snprintf(ports, sizeof(ports), "%d", port);
	sc_sock_init(&s, 0, block, fam);
	for (int t = 0; rc != 0; t++) {
		int p = 0, fd = raw_listen(fam, loop_of(fam), &p);
		close(fd);
		snprintf(srcp, sizeof(srcp), "%d", p);
		rc = SC(sc_sock_connect(&s, loop_of(fam), ports, NULL, srcp));
		if (rc != 0 && !block && errno == EAGAIN) {
			wait_ready(s.fdt.fd, POLLOUT, 10000);
			rc = SC(sc_sock_finish_connect(&s));
		}
		/* the text tells the last address tried only */
		VT_CHECK(rc == 0 || MOMENT(t), "connecting from port %s fails: %s", srcp, sc_sock_error(&s));
		if (rc != 0) {
			SC(sc_sock_term(&s));
			sc_sock_init(&s, 0, block, fam);
		}
	}
	VT_CHECK(wait_ready(lfd, POLLIN, 10000), "a connection does not arrive");
	int a = accept(lfd, NULL, NULL);
	addr_of(a, true, &st, &n);
	int got = ntohs(fam == AF_INET ? ((struct sockaddr_in *) &st)->sin_port : ((struct sockaddr_in6 *) &st)->sin6_port);
	VT_CHECK(got == atoi(srcp), "a connection from port %s comes from port %d", srcp, got);
	vt_class("source-port-alone");
	close(a);
	close(lfd);
	SC(sc_sock_term(&s));
	check_owned("source port");
}
/* listening on a network address, connecting to it */
static void net_case(int fam)
{
	struct sc_sock l, c, a;
	char host[64], ports[16] = "0", other[64], src[64] = "", srcp[16] = "";
	bool lb = vt_chance(1, 2), cb = vt_chance(1, 2);
	int port = 0;
	if (fam == AF_INET6) {
		snprintf(host, sizeof(host), "%s", vt_chance(1, 3) ? "::" : "::1");
	} else if (vt_chance(1, 8)) {
		snprintf(host, sizeof(host), "0.0.0.0");
	} else if (vt_chance(1, 8)) {
		snprintf(host, sizeof(host), "localhost");
	} else {
		one_of_mine(host);
	}
	bool any = strcmp(host, "::") == 0 || strcmp(host, "0.0.0.0") == 0;
	if (vt_chance(1, 2) && !any && strcmp(host, "localhost") != 0) {
		int fd = raw_listen(fam, host, &port);
		if (fd < 0) {
			vt_die("listen: %s", strerror(errno));
		}
		close(fd);
		snprintf(ports, sizeof(ports), "%d", port);
		vt_class("given-port");
	}
	sc_sock_init(&l, 1, lb, fam);
	int rc = LISTEN(SC, &l, host, ports);
	VT_CHECK(rc == 0, "listening on %s:%s fails: %s", host, ports, sc_sock_error(&l));
	struct sockaddr_storage st, want;
	socklen_t n;
	addr_of(l.fdt.fd, false, &st, &n);
	VT_CHECK(st.ss_family == fam, "a socket of family %d listens in family %d", fam, st.ss_family);
	mk_addr(&want, fam, strcmp(host, "localhost") == 0 ? "127.0.0.1" : host, port ? port : port_of(l.fdt.fd));
	VT_CHECK(memcmp(&want, &st, fam == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)) == 0, "asked to listen on %s:%s, the socket listens elsewhere (port %d)",
		 host, ports, port_of(l.fdt.fd));
	port = port_of(l.fdt.fd);
	VT_CHECK(port > 0, "listening without a port");
	snprintf(ports, sizeof(ports), "%d", port);
	check_mode(&l, lb, "a listening socket");
	check_names(&l, false);
	if (fam == AF_INET6) {
		int v = 0;
		socklen_t vn = sizeof(v);
		getsockopt(l.fdt.fd, IPPROTO_IPV6, IPV6_V6ONLY, &v, &vn);
		VT_CHECK(v == 1, "an IPv6 listener takes IPv4 connections as well");
	}
	/* a second listener on the same port of a neighbouring address */
	int nfd = -1, nport = port;
	if (fam == AF_INET && !any && strcmp(host, "localhost") != 0) {
		do {
			one_of_mine(other);
		} while (strcmp(other, host) == 0);
		nfd = raw_listen(fam, other, &nport);
	}
	char to[64];
	snprintf(to, sizeof(to), "%s", strcmp(host, "::") == 0 ? "::1" : strcmp(host, "0.0.0.0") == 0 ? one_of_mine(other) : host);
	sc_sock_init(&c, 2, cb, vt_chance(1, 4) ? (fam == AF_INET ? AF_INET6 : AF_INET) : fam);
	if (strcmp(to, "localhost") == 0) {
		c.family = fam;
	}
	if (vt_chance(1, 2) && fam == AF_INET) {
		one_of_mine(src);
		if (vt_chance(1, 2)) {
			int p = 0, fd = raw_listen(fam, src, &p);
			close(fd);
			snprintf(srcp, sizeof(srcp), "%d", p);
		}
	}
	rc = SC(sc_sock_connect(&c, to, ports, src[0] ? src : NULL, srcp[0] ? srcp : NULL));
	if (rc != 0 && !cb && errno == EAGAIN) {
		wait_ready(c.fdt.fd, POLLOUT, 10000);
		rc = SC(sc_sock_finish_connect(&c));
	}
	VT_CHECK(rc == 0, "connecting to %s:%s from %s:%s fails: %s", to, ports, src, srcp, sc_sock_error(&c));
	VT_CHECK(wait_ready(l.fdt.fd, POLLIN, 10000), "a connection to %s:%s does not arrive there", to, ports);
	VT_CHECK(nfd < 0 || !wait_ready(nfd, POLLIN, 0), "a connection to %s:%s arrives at %s", to, ports, other);
	sc_sock_init(&a, 3, true, any_family());
	VT_CHECK(SC(sc_sock_accept(&l, &a)) == 0, "accepting fails: %s, %s", sc_sock_error(&l), sc_sock_error(&a));
	VT_CHECK(a.family == fam, "a connection accepted in family %d is said to be of family %d", fam, a.family);
	check_mode(&c, cb, "a connecting socket");
	check_mode(&a, lb, "an accepted connection");
	if (src[0]) {
		addr_of(a.fdt.fd, true, &st, &n);
		mk_addr(&want, fam, src, srcp[0] ? atoi(srcp) : ntohs(((struct sockaddr_in *) &st)->sin_port));
		VT_CHECK(memcmp(&want, &st, sizeof(struct sockaddr_in)) == 0, "a connection from %s:%s comes from somewhere else", src, srcp);
		vt_class(srcp[0] ? "source-port" : "source-address");
	}
	check_names(&c, true);
	check_names(&a, true);
	flip_mode(&c);
	check_timeo(vt_chance(1, 2) ? &c : &a);
	/* the server closes first; its address can be used again at once */
	SC(sc_sock_term(&a));
	SC(sc_sock_term(&c));
	SC(sc_sock_term(&l));
	if (nfd >= 0) {
		close(nfd);
	}
	if (fam == AF_INET && !any && vt_chance(1, 2)) {
		rc = LISTEN(SC, &l, host, ports);
		VT_CHECK(rc == 0 || strcmp(host, "localhost") == 0, "listening on %s:%s again fails: %s", host, ports, sc_sock_error(&l));
		vt_class("listened-again");
		SC(sc_sock_term(&l));
	}
	check_owned("addresses");
	vt_class(any ? "any-address" : fam_name(fam));
	vt_state(vt_hash(vt_hash_bytes(1, host, strlen(host)), vt_hash_bytes(src[0] != 0, to, strlen(to))));
	if (vt_want_sample()) {
		vt_sample("listen %s:%s, connect to %s from %s:%s", host, ports, to, src, srcp);
	}
}
static void path_of(char *b, size_t len)
{
	/* relative to the scratch directory; distinct names of any length */
	static int k;
	char t[16];
	int n = snprintf(t, sizeof(t), "%d", k++ % 10000);
	memset(b, 'a' + (int) vt_below(26), len);
	b[len] = '\0';
	memcpy(b, t, (size_t) n < len ? (size_t) n : len);
}
static void local_case(void)
{
	struct sc_sock l, c, a;
	size_t len = vt_chance(1, 3) ? 100 + vt_below(30) : 1 + vt_below(107);
	char path[160], cut[160];
	bool lb = vt_chance(1, 2), cb = vt_chance(1, 2);
	struct stat sb;
	path_of(path, len);
	unlink(path);
	snprintf(cut, sizeof(cut), "%.107s", path);
	sc_sock_init(&l, 0, lb, AF_UNIX);
	sc_sock_init(&c, 0, cb, AF_UNIX);
	if (len >= sizeof(((struct sockaddr_un *) 0)->sun_path)) {
		int other = -1;
		unlink(cut);
		if (vt_chance(1, 2)) {
			int p = 0;
			other = raw_listen(AF_UNIX, cut, &p);
		}
		int fd = open(path, O_CREAT | O_WRONLY, 0600);
		close(fd);
		VT_CHECK(SC(sc_sock_listen(&l, path, NULL)) < 0 && *sc_sock_error(&l), "listening on a path of %zu bytes succeeds", len);
		VT_CHECK(stat(path, &sb) == 0, "a path that cannot be listened on is removed");
		VT_CHECK((stat(cut, &sb) == 0) == (other >= 0), "listening on a path of %zu bytes listens on its beginning", len);
		VT_CHECK(SC(sc_sock_connect(&c, path, NULL, NULL, NULL)) < 0 && *sc_sock_error(&c), "connecting to a path of %zu bytes succeeds", len);
		check_owned("long path");
		vt_class("path.too-long");
		if (other >= 0) {
			close(other);
			unlink(cut);
		}
		unlink(path);
		SC(sc_sock_term(&l));
		SC(sc_sock_term(&c));
		return;
	}
	if (vt_chance(1, 3)) {
		/* left over from an earlier run */
		int p = 0, fd = raw_listen(AF_UNIX, path, &p);
		close(fd);
		vt_class("path.left-over");
	}
	VT_CHECK(SC(sc_sock_listen(&l, path, NULL)) == 0, "listening on a path of %zu bytes fails: %s", len, sc_sock_error(&l));
	VT_CHECK(stat(path, &sb) == 0 && S_ISSOCK(sb.st_mode), "a socket listening on '%s' is not there", path);
	check_mode(&l, lb, "a listening local socket");
	check_names(&l, false);
	int rc = SC(sc_sock_connect(&c, path, NULL, NULL, NULL));
	VT_CHECK(rc == 0, "connecting to '%s' fails: %s", path, sc_sock_error(&c));
	check_mode(&c, cb, "a connecting local socket");
	sc_sock_init(&a, 0, true, any_family());
	VT_CHECK(wait_ready(l.fdt.fd, POLLIN, 10000), "a connection to '%s' does not arrive there", path);
	VT_CHECK(SC(sc_sock_accept(&l, &a)) == 0, "accepting fails: %s, %s", sc_sock_error(&l), sc_sock_error(&a));
	VT_CHECK(a.family == AF_UNIX, "a local connection is accepted as one of family %d", a.family);
	check_mode(&a, lb, "an accepted local connection");
	check_names(&c, true);
	check_names(&a, true);
	flip_mode(&a);
	check_timeo(&a);
	SC(sc_sock_term(&a));
	SC(sc_sock_term(&c));
	SC(sc_sock_term(&l));
	check_owned("local");
	unlink(path);
	vt_class(len >= 106 ? "path.longest" : "path");
	vt_state(vt_hash(3, len));
}
static void notify_case(void)
{
	static char msg[5000], got[6000];
	char name[300];
	size_t len = vt_chance(1, 3) ? 100 + vt_below(20) : 2 + vt_below(106);
	bool abs = vt_chance(1, 2);
	size_t ml = vt_chance(1, 8) ? 0 : vt_chance(1, 2) ? 1 + vt_below(60) : vt_below(sizeof(msg) - 1);
	for (size_t i = 0; i < ml; i++) {
		msg[i] = (char) (1 + vt_below(255));
	}
	msg[ml] = '\0';
	switch (vt_below(12)) {
	case 0:
		unsetenv("NOTIFY_SOCKET");
		VT_CHECK(SC(sc_sock_notify_systemd(msg)) < 0 && errno == EINVAL, "a notification without a configured socket succeeds (errno %d)", errno);
		vt_class("notify.none");
		check_owned("notify");
		return;
	case 1: {
		static const char *const bad[] = {"", "@", "/", "x", "relative/path", " /tmp/x", "3"};
		setenv("NOTIFY_SOCKET", bad[vt_below(7)], 1);
		VT_CHECK(SC(sc_sock_notify_systemd(msg)) < 0 && errno == EINVAL, "a notification to a malformed address succeeds (errno %d)", errno);
		vt_class("notify.malformed");
		check_owned("notify");
		return;
	}
	default: break;
	}
	if (abs) {
		static int serial;
		char t[64];
		int n = snprintf(t, sizeof(t), "vt-%d-%d-%" PRIu64 "-", (int) getpid(), serial++, vt_case_no);
		if (len < (size_t) n + 1) {
			len = (size_t) n + 1;
		}
		memset(name, 'n', len);
		name[0] = '@';
		memcpy(name + 1, t, (size_t) n);
		name[len] = '\0';
	} else {
		char cwd[200];
		if (getcwd(cwd, sizeof(cwd)) == NULL) {
			vt_die("getcwd");
		}
		size_t base = strlen(cwd) + 6;
		if (base > 100) {
			vt_die("scratch directory %s is too long", cwd);
		}
		if (len < base) {
			len = base;
		}
		/* slashes make up the length */
		memset(name, '/', len);
		memcpy(name, cwd, strlen(cwd));
		snprintf(name + len - 5, 6, "%05d", path_no++ % 90000);
	}
	bool fits = len < sizeof(((struct sockaddr_un *) 0)->sun_path);
	struct sockaddr_un un = {.sun_family = AF_UNIX};
	size_t bl = fits ? len : 107;
	memcpy(un.sun_path, name, bl);
	if (abs) {
		un.sun_path[0] = '\0';
	}
	int d = socket(AF_UNIX, SOCK_DGRAM, 0), big_ = 1 << 20;
	setsockopt(d, SOL_SOCKET, SO_RCVBUF, &big_, sizeof(big_));
	unlink(name);
	if (!fits && !abs) {
		char t[120];
		snprintf(t, sizeof(t), "%.107s", name);
		unlink(t);
		mkdir(t, 0700);
		rmdir(t);
	}
	bool bound = bind(d, (void *) &un, (socklen_t) (offsetof(struct sockaddr_un, sun_path) + bl + (abs ? 0 : fits ? 1 : 0))) == 0;
	if (!bound && fits) {
		vt_die("bind %s: %s", name, strerror(errno));
	}
	setenv("NOTIFY_SOCKET", name, 1);
	int rc = SC(sc_sock_notify_systemd(msg)), e = errno;
	ssize_t n = recv(d, got, sizeof(got), MSG_DONTWAIT);
	if (fits) {
		VT_CHECK(rc == 0, "a notification of %zu bytes to %s fails: %s", ml, name, strerror(e));
		VT_CHECK(n == (ssize_t) ml && memcmp(got, msg, ml) == 0, "a notification of %zu bytes arrives as %zd bytes", ml, n);
		VT_CHECK(recv(d, got, sizeof(got), MSG_DONTWAIT) < 0, "a notification arrives twice");
		vt_class(abs ? "notify.abstract" : "notify.path");
	} else {
		VT_CHECK(rc < 0 && e != 0, "a notification to an address of %zu bytes succeeds", len);
		VT_CHECK(n < 0, "a notification to an address of %zu bytes reaches its beginning", len);
		vt_class("notify.too-long");
	}
	check_owned("notify");
	close(d);
	if (!abs && bound) {
		struct sockaddr_un z = un;
		char t[120];
		snprintf(t, sizeof(t), "%.108s", z.sun_path);
		unlink(t);
	}
	unsetenv("NOTIFY_SOCKET");
	vt_state(vt_hash(vt_hash(4, len), ml));
}
#ifdef REALTIME
static void time_case(void)
{
	int fam = pick_family(), sp[2];
	struct sc_sock s;
	static char b[1 << 16];
	if (fam == AF_UNIX) {
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp) != 0) {
			vt_die("socketpair");
		}
	} else {
		int port = 0, l = raw_listen(fam, loop_of(fam), &port);
		sp[1] = raw_connect(fam, loop_of(fam), port);
		sp[0] = accept(l, NULL, NULL);
		close(l);
	}
	sc_sock_init(&s, 0, true, fam);
	s.fdt.fd = sp[0];
	int ms = 20 + (int) vt_below(200);
	bool snd = vt_chance(1, 2);
	VT_CHECK(SC(snd ? sc_sock_set_sndtimeo(&s, ms) : sc_sock_set_rcvtimeo(&s, ms)) == 0, "setting a timeout fails");
	uint64_t t0;
	int rc;
	if (snd) {
		/* until it is full; then nothing moves any more */
		int calls = 0;
		fcntl(sp[0], F_SETFL, O_NONBLOCK);
		for (int i = 0; i < 3; i++) {
			while (write(sp[0], b, sizeof(b)) > 0 && calls++ < 2000) {}
			struct timespec t = {0, 20000000};
			nanosleep(&t, NULL);
		}
		while (write(sp[0], b, 1) > 0) {}
		fcntl(sp[0], F_SETFL, 0);
		do {
			t0 = vt_now_us();
			rc = SC(sc_sock_send(&s, b, sizeof(b), 0));
		} while (rc > 0);
	} else {
		t0 = vt_now_us();
		rc = SC(sc_sock_recv(&s, b, 10, 0));
	}
	int e = errno;
	uint64_t dt = vt_now_us() - t0;
	VT_CHECK(rc == -1 && e == EAGAIN, "a %s that times out returns %d, errno %d", snd ? "send" : "receive", rc, e);
	VT_CHECK(dt + 2000 >= (uint64_t) ms * 1000 && dt < (uint64_t) ms * 1000 + 400000, "a %s timeout of %d ms takes %" PRIu64 " us", snd ? "send" : "receive", ms, dt);
	vt_class(snd ? "real-send-timeout" : "real-receive-timeout");
	vt_state(vt_hash(snd, (uint64_t) ms));
	close(sp[0]);
	close(sp[1]);
}
#endif
void vt_case(uint64_t n)
{
	static bool ready;
	if (!ready) {
		ready = true;
		nets();
	}
#ifdef REALTIME
	(void) n;
	time_case();
#else
	int fds = vt_fd_count();
	switch (n % 7) {
	case 6:
		name_case();
		if (have6 && vt_chance(1, 2)) {
			both_case();
		} else if (vt_chance(1, 2)) {
			port_case();
		}
		break;
	case 0: case 1: net_case(AF_INET); break;
	case 2: net_case(have6 ? AF_INET6 : AF_INET); break;
	case 3: case 4: local_case(); break;
	default: notify_case(); break;
	}
	VT_CHECK(vt_fd_count() == fds, "%d descriptor(s) are left open", vt_fd_count() - fds);
#endif
}
#endif
