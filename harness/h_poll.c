/* K02: polls against the readiness poll(2) reports and a model of what is
 * registered. MODE 1: histories on virtual time. MODE 2: registering and
 * polling from different threads. MODE 3: real time. */
#include "vt.h"
#include "sc_sock.h"
#define OWN_EPOLL
#include "sock.inc"

#ifndef SC_SOCK_POLL_MAX_EVENTS
#define SC_SOCK_POLL_MAX_EVENTS 1024
#endif
#define CAP SC_SOCK_POLL_MAX_EVENTS

/* ---- virtual time for waiting ---- */
#define TOKENS 3
struct src {
	int kind; /* 0 pipe, 1 socket pair, 2 listening socket */
	struct sc_sock_pipe p;
	struct sc_sock s;
	struct sc_sock_fd *fdt;
	int peer; /* -1: closed */
	int self; /* our descriptor */
	unsigned mask;
	int tok;  /* token index of the current registration */
	char tokens[TOKENS];
	int arm; /* edge-triggered: 0 must not, 1 may, 2 must be reported */
	int missed;
	bool open, hung;
	char path[128];
	int conns[4], nconn;
};
static struct sc_sock_poll pl;
static struct src *src;
static int nsrc;
static bool virt;
static int64_t vnow_ns;
static int intr_left, n_intrs, forever_wakes;
static bool was_forever;

static void make_ready_some(void);
int __real_epoll_wait(int e, struct epoll_event *ev, int n, int t);
int __wrap_epoll_wait(int e, struct epoll_event *ev, int n, int t)
{
	if (!inside || !virt) {
		return __real_epoll_wait(e, ev, n, t);
	}
	if (n > CAP) {
		vt_fail("room for %d results is announced, there is room for %d", n, CAP);
	}
	if (intr_left > 0) {
		intr_left--;
		n_intrs++;
		vnow_ns += t > 0 ? (int64_t) vt_below((uint64_t) t) * 1000000 + (int64_t) vt_below(999999) : t < 0 ? (int64_t) vt_below(2000000) : 0;
		errno = EINTR;
		return -1;
	}
	int r = __real_epoll_wait(e, ev, n, 0);
	if (r == 0 && t > 0) {
		vnow_ns += (int64_t) t * 1000000;
	}
	if (r == 0 && t < 0) {
		was_forever = true;
		if (++forever_wakes > 200) {
			vt_fail("waiting for ever does not end although a registered descriptor is ready");
		}
		inside = false;
		make_ready_some();
		inside = true;
		return __wrap_epoll_wait(e, ev, n, t);
	}
	return r;
}
int __wrap_epoll_pwait(int e, struct epoll_event *ev, int n, int t, const void *m)
{
	(void) m;
	return __wrap_epoll_wait(e, ev, n, t);
}
int __real_clock_gettime(clockid_t c, struct timespec *t);
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	if (!inside || !virt) {
		return __real_clock_gettime(c, t);
	}
	t->tv_sec = vnow_ns / 1000000000;
	t->tv_nsec = vnow_ns % 1000000000;
	return 0;
}
static int ctl_delay;
static __thread vt_rng ctl_r;
static bool ctl_refuse;
int __real_epoll_ctl(int e, int o, int fd, struct epoll_event *ev);
int __wrap_epoll_ctl(int e, int o, int fd, struct epoll_event *ev)
{
	if (inside && ctl_refuse) {
		static const int er[] = {ENOSPC, ENOMEM, EPERM, ELOOP, EBADF, ENOENT, EEXIST, EINTR};
		errno = er[vt_below(8)];
		return -1;
	}
	int r = __real_epoll_ctl(e, o, fd, ev);
	if (inside && ctl_delay) {
		int er = errno;
		struct timespec t = {0, (long) vt_below_r(&ctl_r, (uint64_t) ctl_delay) * 1000};
		if (vt_below_r(&ctl_r, 2) == 0) {
			nanosleep(&t, NULL);
		}
		errno = er;
	}
	return r;
}

void vt_setup(void) { sock_setup(); }

#if MODE == 1
static bool can_wake(const struct src *x) { return x->open && !x->hung && (x->mask & SC_SOCK_READ); }
static unsigned ready_of(struct src *x)
{
	struct pollfd p = {.fd = x->self, .events = POLLIN | POLLOUT | POLLRDHUP};
	poll(&p, 1, 0);
	if (p.revents & (POLLHUP | POLLERR | POLLRDHUP)) {
		return SC_SOCK_READ | SC_SOCK_WRITE | 0x100u;
	}
	return ((p.revents & POLLIN) ? SC_SOCK_READ : 0u) | ((p.revents & POLLOUT) ? SC_SOCK_WRITE : 0u);
}
static unsigned expect_of(struct src *x)
{
	unsigned r = ready_of(x);
	if (x->mask == 0) {
		return 0;
	}
	return (r & 0x100u) ? (SC_SOCK_READ | SC_SOCK_WRITE) : (r & x->mask & 3u);
}
static void touch(struct src *x, unsigned before)
{
	unsigned now = ready_of(x);
	if ((now & ~before) & (x->mask | 0x100u)) {
		x->arm = 2; /* newly ready for something registered */
	} else if (x->arm == 0) {
		x->arm = 1;
	}
}
static void open_src(struct src *x)
{
	int sp[2];
	x->nconn = 0;
	switch (x->kind) {
	case 0:
		VT_CHECK(SC(sc_sock_pipe_init(&x->p, (int) vt_rnd())) == 0, "creating a pipe fails");
		x->fdt = &x->p.fdt;
		x->self = x->p.fds[0];
		x->peer = x->p.fds[1];
		fcntl(x->self, F_SETFL, O_NONBLOCK);
		fcntl(x->peer, F_SETFL, O_NONBLOCK);
		break;
	case 1:
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sp) != 0) {
			vt_die("socketpair: %s", strerror(errno));
		}
		sc_sock_init(&x->s, 0, false, SC_SOCK_UNIX);
		x->s.fdt.fd = sp[0];
		own(sp[0]);
		x->fdt = &x->s.fdt;
		x->self = sp[0];
		x->peer = sp[1];
		if (nsrc > 100) {
			int sz = 4096;
			setsockopt(sp[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
		}
		break;
	default: /* the same object is opened again after it was terminated */
		snprintf(x->path, sizeof(x->path), "%s", new_path());
		VT_CHECK(SC(sc_sock_listen(&x->s, x->path, NULL)) == 0, "listening on %s fails: %s", x->path, sc_sock_error(&x->s));
		x->fdt = &x->s.fdt;
		x->self = x->s.fdt.fd;
		x->peer = -2;
		break;
	}
	x->open = true;
	x->hung = false;
	x->mask = 0;
	x->arm = 0;
	x->missed = 0;
}
static void close_src(struct src *x)
{
	int rc;
	if (x->kind == 0) {
		rc = SC(sc_sock_pipe_term(&x->p));
		if (x->peer == -1) {
			rc = 0;
		}
	} else {
		rc = SC(sc_sock_term(&x->s));
		if (x->peer >= 0) {
			close(x->peer);
		}
		while (x->nconn > 0) {
			close(x->conns[--x->nconn]);
		}
		if (x->kind == 2) {
			unlink(x->path);
		}
	}
	VT_CHECK(rc == 0, "closing fails");
	if (x->mask) {
		vt_class("closed-while-registered");
	}
	x->open = false;
	x->mask = 0;
	x->peer = -1;
}
static void peer_write(struct src *x)
{
	char b[200] = {1};
	unsigned before = ready_of(x);
	if (x->kind == 2) {
		if (x->nconn < 4) {
			int c = raw_connect(AF_UNIX, x->path, 0);
			if (c < 0) {
				vt_die("connect: %s", strerror(errno));
			}
			x->conns[x->nconn++] = c;
		}
	} else if (x->peer >= 0) {
		if (write(x->peer, b, 1 + vt_below(sizeof(b) - 1)) < 0) {
			/* full or closed for writing */
		}
	}
	touch(x, before);
}
static void drain(struct src *x)
{
	char b[4096];
	unsigned before = ready_of(x);
	if (x->kind == 2) {
		while (x->nconn > 0 && wait_ready(x->self, POLLIN, 0)) {
			int fd = accept(x->self, NULL, NULL);
			close(fd);
			close(x->conns[--x->nconn]);
		}
	} else {
		for (int i = 0; i < 200 && read(x->self, b, sizeof(b)) > 0; i++) {}
	}
	touch(x, before);
}
static void fill_up(struct src *x)
{
	static char b[65536];
	unsigned before = ready_of(x);
	if (x->kind == 1) {
		while (write(x->self, b, sizeof(b)) > 0) {}
	}
	touch(x, before);
}
static void peer_drain(struct src *x)
{
	static char b[65536];
	unsigned before = ready_of(x);
	if (x->kind == 1 && x->peer >= 0) {
		while (read(x->peer, b, sizeof(b)) > 0) {}
	}
	touch(x, before);
}
static void peer_close(struct src *x)
{
	unsigned before = ready_of(x);
	x->hung = x->kind != 2;
	if (x->kind == 1 && x->peer >= 0) {
		if (vt_chance(1, 2)) {
			shutdown(x->peer, SHUT_WR);
			vt_class("peer-half-close");
		} else {
			close(x->peer);
			x->peer = -1;
			vt_class("peer-close");
		}
	} else if (x->kind == 0 && x->peer >= 0) {
		/* replaced by a closed end which stays the pipe's own number */
		int nul = open("/dev/null", O_WRONLY);
		dup2(nul, x->peer);
		close(nul);
		vt_class("peer-close");
	}
	touch(x, before);
}
static void make_ready_some(void)
{
	/* called when waiting for ever finds nothing: something becomes ready */
	int k = (int) vt_below((uint64_t) nsrc);
	while (!can_wake(&src[k])) {
		k = (k + 1) % nsrc;
	}
	drain(&src[k]);
	peer_write(&src[k]);
}
static void model_change(struct src *x, unsigned nm, int tok)
{
	if (nm == SC_SOCK_EDGE) {
		nm = 0;
	}
	if (nm == x->mask) {
		vt_class("unchanged");
		return;
	}
	x->mask = nm;
	x->tok = tok;
	x->arm = 2;
	x->missed = 0;
}
static void do_add(struct src *x, unsigned ev)
{
	int tok = (int) vt_below(TOKENS);
	ctl_refuse = vt_chance(1, 25);
	int rc = SC(sc_sock_poll_add(&pl, x->fdt, ev, &x->tokens[tok]));
	unsigned nm = x->mask | ev;
	bool would = nm != x->mask && nm != SC_SOCK_EDGE;
	vt_log("add(%d, %u) with %u = %d", (int) (x - src), ev, x->mask, rc);
	if (ctl_refuse && would) {
		VT_CHECK(rc == -1 && *sc_sock_poll_err(&pl) != '\0', "adding fails in the system but returns %d", rc);
		vt_class("refused");
	} else {
		VT_CHECK(rc == 0, "adding fails: %s", sc_sock_poll_err(&pl));
		model_change(x, nm, tok);
	}
	ctl_refuse = false;
	if (ev & SC_SOCK_EDGE) {
		vt_class("edge");
	}
}
static void do_del(struct src *x, unsigned ev)
{
	int tok = (int) vt_below(TOKENS);
	ctl_refuse = vt_chance(1, 25);
	int rc = SC(sc_sock_poll_del(&pl, x->fdt, ev, &x->tokens[tok]));
	unsigned nm = x->mask & ~ev;
	vt_log("del(%d, %u) with %u = %d", (int) (x - src), ev, x->mask, rc);
	if (ctl_refuse && nm != x->mask) {
		VT_CHECK(rc == -1 && *sc_sock_poll_err(&pl) != '\0', "removing fails in the system but returns %d", rc);
	} else {
		VT_CHECK(rc == 0, "removing fails: %s", sc_sock_poll_err(&pl));
		if (nm != x->mask && (nm & 3)) {
			vt_class("partly-removed");
		} else if (nm != x->mask) {
			vt_class("removed");
		}
		model_change(x, nm, tok);
	}
	ctl_refuse = false;
}
static unsigned seen_round;
static unsigned *seen_at;
static void do_wait(int timeout)
{
	int want = 0, any = 0;
	unsigned *ex = vt_malloc(sizeof(*ex) * (size_t) nsrc);
	for (int i = 0; i < nsrc; i++) {
		any += can_wake(&src[i]);
	}
	if (timeout < 0 && !any) {
		timeout = 0;
	}
	intr_left = vt_chance(1, 3) ? (int) vt_below(vt_chance(1, 30) ? 1500 : 12) : 0;
	n_intrs = forever_wakes = 0;
	was_forever = false;
	int64_t t0 = vnow_ns;
	virt = true;
	int n = SC(sc_sock_poll_wait(&pl, timeout));
	virt = false;
	int64_t dt = vnow_ns - t0;
	intr_left = 0;
	VT_CHECK(n >= 0 && n <= CAP, "waiting returns %d: %s", n, sc_sock_poll_err(&pl));
	vt_log("wait(%d) = %d after %" PRId64 " us, %d interruptions", timeout, n, dt / 1000, n_intrs);
	for (int i = 0; i < nsrc; i++) {
		/* what waiting for ever changed is part of the state now */
		ex[i] = src[i].open ? expect_of(&src[i]) : 0;
		want += ex[i] != 0;
	}
	seen_round++;
	for (int i = 0; i < n; i++) {
		char *d = sc_sock_poll_data(&pl, i);
		unsigned ev = sc_sock_poll_event(&pl, i);
		ptrdiff_t off = d - (char *) src;
		struct src *x = NULL;
		if (d != NULL && off >= 0 && off < (ptrdiff_t) (sizeof(*src) * (size_t) nsrc)) {
			x = &src[(size_t) off / sizeof(*src)];
			if (d < x->tokens || d >= x->tokens + TOKENS) {
				x = NULL;
			}
		}
		VT_CHECK(x != NULL, "result %d carries data nobody registered", i);
		int k = (int) (x - src);
		VT_CHECK(x->open && x->mask != 0, "descriptor %d is reported (%u) though it is not registered", k, ev);
		VT_CHECK(seen_at[k] != seen_round, "descriptor %d is reported twice by one wait", k);
		seen_at[k] = seen_round;
		VT_CHECK(d == &x->tokens[x->tok], "descriptor %d is reported with data %d instead of %d", k, (int) (d - x->tokens), x->tok);
		VT_CHECK(ev == ex[k], "descriptor %d registered for %u is reported with %u, it is ready for %u", k, x->mask, ev, ex[k]);
		VT_CHECK(ev != 0, "descriptor %d is reported without being ready", k);
		if (x->mask & SC_SOCK_EDGE) {
			VT_CHECK(x->arm != 0, "edge-triggered descriptor %d is reported again though nothing happened", k);
			vt_class("edge.reported");
		}
		x->missed = 0;
		x->arm = 0;
	}
	for (int i = 0; i < nsrc; i++) {
		struct src *x = &src[i];
		if (seen_at[i] == seen_round || !x->open) {
			continue;
		}
		if (ex[i] == 0) {
			if (x->mask & SC_SOCK_EDGE) {
				x->arm = 0;
			}
			continue;
		}
		if ((x->mask & SC_SOCK_EDGE) && x->arm != 2) {
			continue; /* at most an old edge */
		}
		x->missed++;
		VT_CHECK(n == CAP && x->missed <= nsrc / CAP + 2, "descriptor %d registered for %u and ready for %u is not reported (%d results, missed %d times)",
			 i, x->mask, ex[i], n, x->missed);
		vt_class("more-than-fit");
	}
	/* time: only waiting with nothing ready takes it */
	if (n == 0) {
		VT_CHECK(timeout >= 0, "waiting for ever ends with nothing");
		int64_t lim = timeout;
		if (timeout > 0) {
			VT_CHECK(dt >= (lim - 1) * 1000000, "waiting %d ms ends after %" PRId64 " us, %d interruptions", timeout, dt / 1000, n_intrs);
			VT_CHECK(dt <= (lim + 1 + n_intrs) * 1000000, "waiting %d ms ends after %" PRId64 " us, %d interruptions", timeout, dt / 1000, n_intrs);
			vt_class(n_intrs ? "timeout.interrupted" : "timeout");
		}
	} else {
		vt_class(was_forever ? "woken-for-ever" : "found");
	}
	vt_state(vt_hash(vt_hash((uint64_t) n, (uint64_t) want), (uint64_t) timeout));
	vt_free(ex);
}
void vt_case(uint64_t n)
{
	static unsigned seen_buf[4096];
	bool mass = n % 40 == 7;
	seen_at = seen_buf;
	memset(seen_buf, 0, sizeof(seen_buf));
	seen_round = 0;
	nsrc = mass ? CAP + (int) vt_below(400) : 1 + (int) vt_below(12);
	src = vt_calloc((size_t) nsrc, sizeof(*src));
	VT_CHECK(SC(sc_sock_poll_init(&pl)) == 0, "creating a poll fails");
	uint64_t h = 1;
	for (int i = 0; i < nsrc; i++) {
		src[i].kind = mass ? (int) vt_below(2) : (int) vt_below(3);
		sc_sock_init(&src[i].s, 0, false, SC_SOCK_UNIX);
		open_src(&src[i]);
	}
	int nops = mass ? 60 : 30 + (int) vt_below(150);
	if (mass) {
		vt_class("many");
		for (int i = 0; i < nsrc; i++) {
			do_add(&src[i], 1 + (unsigned) vt_below(7));
			if (vt_chance(3, 4)) {
				peer_write(&src[i]);
			}
		}
	}
	for (int k = 0; k < nops; k++) {
		struct src *x = &src[vt_below((uint64_t) nsrc)];
		unsigned op = (unsigned) vt_below(20);
		h = vt_hash(h, op * 64 + (unsigned) (x - src));
		if (!x->open) {
			open_src(x);
			vt_class(x->kind == 2 ? "reopened" : "opened-again");
		}
		switch (op) {
		case 0: case 1: case 2: do_add(x, 1 + (unsigned) vt_below(7)); break;
		case 3: case 4: do_del(x, 1 + (unsigned) vt_below(7)); break;
		case 5: case 6: case 7: peer_write(x); break;
		case 8: drain(x); break;
		case 9: fill_up(x); break;
		case 10: peer_drain(x); break;
		case 11: if (vt_chance(1, 3)) { peer_close(x); } break;
		case 12: if (vt_chance(1, 3)) { close_src(x); } break;
		case 13: do_wait(1 + (int) vt_below(5000)); break;
		case 14: do_wait(vt_chance(1, 2) ? -1 : 1 + (int) vt_below(100000000)); break;
		default: do_wait(0); break;
		}
	}
	/* everything that is ready has been seen; then nothing is left */
	for (int k = 0; k < nsrc / CAP + 3; k++) {
		do_wait(0);
	}
	for (int i = 0; i < nsrc; i++) {
		if (src[i].open && src[i].mask && vt_chance(2, 3)) {
			do_del(&src[i], SC_SOCK_READ | SC_SOCK_WRITE | SC_SOCK_EDGE);
		}
	}
	do_wait(0);
	do_wait(10);
	for (int i = 0; i < nsrc; i++) {
		if (src[i].open) {
			close_src(&src[i]);
		}
	}
	do_wait(0);
	VT_CHECK(SC(sc_sock_poll_term(&pl)) == 0, "terminating a poll fails");
	VT_CHECK(SC(sc_sock_poll_term(&pl)) == 0, "terminating a poll again fails");
	VT_CHECK(SC(sc_sock_poll_wait(&pl, 0)) == -1 && *sc_sock_poll_err(&pl) != '\0', "waiting on a terminated poll succeeds");
	check_owned("poll");
	VT_CHECK(vt_live == 0, "%ld block(s) are never released", vt_live);
	vt_state(h);
	if (vt_want_sample()) {
		vt_sample("%d descriptors, %d operations, %u waits", nsrc, nops, seen_round);
	}
	vt_free(src);
	src = NULL;
}
#endif

#if MODE == 2
/* Producers register pipes whose record is the data; the poller takes every
 * record that becomes ready, uses it, removes it and releases it. */
struct rec {
	struct sc_sock_pipe p;
	unsigned id;
	unsigned ev;
};
static int nprod, per;
static unsigned char *got;
static int produced;
struct prod {
	int k;
	uint64_t seed;
};
static void *producer(void *arg)
{
	struct prod *pr = arg;
	vt_rng r = {.s = pr->seed};
	ctl_r.s = pr->seed ^ 7;
	struct rec *late[64];
	int nlate = 0;
	for (int i = 0; i < per; i++) {
		struct rec *x = vt_malloc(sizeof(*x)); /* plain memory below */
		vt_free(x);
		x = malloc(sizeof(*x));
		if (SC(sc_sock_pipe_init(&x->p, 0)) != 0) {
			vt_die("pipe");
		}
		x->id = (unsigned) (pr->k * per + i);
		x->ev = vt_below_r(&r, 2) ? SC_SOCK_READ : SC_SOCK_READ | SC_SOCK_EDGE;
		bool before = vt_below_r(&r, 2);
		int wfd = x->p.fds[1];
		unsigned id = x->id;
		if (before) {
			SC(sc_sock_pipe_write(&x->p, &id, sizeof(id)));
		}
		int rc = SC(sc_sock_poll_add(&pl, &x->p.fdt, x->ev, x));
		/* from here on the record may be in use or gone */
		if (rc != 0) {
			vt_fail("adding from a second thread fails: %s", sc_sock_poll_err(&pl));
		}
		if (!before) {
			if (vt_below_r(&r, 3) == 0 && nlate < 60) {
				late[nlate++] = x;
			} else if (write(wfd, &id, sizeof(id)) != sizeof(id)) {
				vt_die("write");
			}
		}
	}
	while (nlate > 0) {
		struct rec *x = late[--nlate];
		unsigned id = x->id; /* still untouched: it never became ready */
		if (write(x->p.fds[1], &id, sizeof(id)) != sizeof(id)) {
			vt_die("write");
		}
	}
	__atomic_add_fetch(&produced, 1, __ATOMIC_RELEASE);
	return NULL;
}
void vt_case(uint64_t n)
{
	(void) n;
	pthread_t t[6];
	struct prod pr[6];
	nprod = 1 + (int) vt_below(5);
	per = 5 + (int) vt_below(35);
	ctl_delay = vt_chance(2, 3) ? 1 + (int) vt_below(400) : 0;
	ctl_r.s = vt_rnd();
	produced = 0;
	got = vt_calloc((size_t) (nprod * per), 1);
	VT_CHECK(SC(sc_sock_poll_init(&pl)) == 0, "creating a poll fails");
	for (int i = 0; i < nprod; i++) {
		pr[i] = (struct prod){i, vt_rnd()};
		if (pthread_create(&t[i], NULL, producer, &pr[i]) != 0) {
			vt_die("pthread_create");
		}
	}
	int left = nprod * per, idle = 0;
	uint64_t h = 1;
	while (left > 0) {
		int k = SC(sc_sock_poll_wait(&pl, 50));
		VT_CHECK(k >= 0, "waiting fails: %s", sc_sock_poll_err(&pl));
		if (k == 0 && __atomic_load_n(&produced, __ATOMIC_ACQUIRE) == nprod && ++idle > 60) {
			vt_fail("%d of %d ready descriptors are never reported", left, nprod * per);
		}
		for (int i = 0; i < k; i++) {
			struct rec *x = sc_sock_poll_data(&pl, i);
			unsigned ev = sc_sock_poll_event(&pl, i), id = ~0u;
			VT_CHECK(ev == SC_SOCK_READ, "a readable pipe is reported with %u", ev);
			VT_CHECK(SC(sc_sock_pipe_read(&x->p, &id, sizeof(id))) == sizeof(id) && id == x->id, "pipe %u delivers %u", x->id, id);
			VT_CHECK(id < (unsigned) (nprod * per) && !got[id], "descriptor %u is reported again after it was removed", id);
			got[id] = 1;
			h = vt_hash(h, id);
			if (ctl_delay && vt_chance(1, 3)) {
				struct timespec ts = {0, (long) vt_below(300000)};
				nanosleep(&ts, NULL);
			}
			VT_CHECK(x->p.fdt.op == x->ev, "a reported descriptor counts as registered for %u instead of %u", (unsigned) x->p.fdt.op, x->ev);
			VT_CHECK(SC(sc_sock_poll_del(&pl, &x->p.fdt, SC_SOCK_READ | SC_SOCK_EDGE, NULL)) == 0, "removing fails: %s", sc_sock_poll_err(&pl));
			VT_CHECK(SC(sc_sock_pipe_term(&x->p)) == 0, "closing fails");
			memset(x, 0xdd, sizeof(*x));
			free(x);
			left--;
		}
	}
	for (int i = 0; i < nprod; i++) {
		pthread_join(t[i], NULL);
	}
	VT_CHECK(SC(sc_sock_poll_wait(&pl, 0)) == 0, "something is reported after everything was removed");
	VT_CHECK(SC(sc_sock_poll_term(&pl)) == 0, "terminating fails");
	check_owned("threads");
	vt_class("registered-by-other-thread");
	vt_state(h);
	if (vt_want_sample()) {
		vt_sample("%d threads register %d pipes each while one thread polls", nprod, per);
	}
	vt_free(got);
}
#endif

#if MODE == 3
struct waker {
	int fd, us;
};
static void *wake(void *arg)
{
	struct waker *w = arg;
	struct timespec t = {0, w->us * 1000L};
	nanosleep(&t, NULL);
	if (write(w->fd, "x", 1) != 1) {
		vt_die("write");
	}
	return NULL;
}
static void on_alrm(int s) { (void) s; }
void vt_case(uint64_t n)
{
	(void) n;
	struct sc_sock_pipe p;
	pthread_t t;
	int ms = 10 + (int) vt_below(60), us = 0;
	unsigned how = (unsigned) vt_below(4);
	VT_CHECK(SC(sc_sock_poll_init(&pl)) == 0 && SC(sc_sock_pipe_init(&p, 0)) == 0, "set-up fails");
	VT_CHECK(SC(sc_sock_poll_add(&pl, &p.fdt, SC_SOCK_READ, &p)) == 0, "adding fails");
	struct sigaction sa = {.sa_handler = on_alrm};
	sigaction(SIGALRM, &sa, NULL);
	struct itimerval it = {{0, 3000}, {0, 3000}}, off = {{0, 0}, {0, 0}};
	sigset_t m, old;
	sigemptyset(&m);
	sigaddset(&m, SIGALRM);
	struct waker w = {p.fds[1], 0};
	if (how >= 2) {
		us = 1000 + (int) vt_below((uint64_t) ms * 500);
		w.us = us;
		pthread_sigmask(SIG_BLOCK, &m, &old);
		if (pthread_create(&t, NULL, wake, &w) != 0) {
			vt_die("pthread_create");
		}
		pthread_sigmask(SIG_SETMASK, &old, NULL);
	}
	uint64_t t0 = vt_now_us();
	if (how & 1) {
		setitimer(ITIMER_REAL, &it, NULL);
	}
	int k = SC(sc_sock_poll_wait(&pl, how == 2 && vt_chance(1, 2) ? -1 : ms));
	uint64_t dt = vt_now_us() - t0;
	setitimer(ITIMER_REAL, &off, NULL);
	if (how >= 2) {
		pthread_join(t, NULL);
		VT_CHECK(k == 1 && sc_sock_poll_data(&pl, 0) == &p, "a descriptor that becomes ready after %d us is not reported (%d)", us, k);
		VT_CHECK(dt < (uint64_t) ms * 1000 + 400000, "waiting takes %" PRIu64 " us, the descriptor was ready after %d us", dt, us);
		vt_class("woken");
	} else {
		VT_CHECK(k == 0, "waiting for nothing returns %d", k);
		VT_CHECK(dt + 2000 >= (uint64_t) ms * 1000 && dt < (uint64_t) ms * 1000 + 400000, "waiting %d ms takes %" PRIu64 " us", ms, dt);
		vt_class(how & 1 ? "real-timeout.interrupted" : "real-timeout");
	}
	SC(sc_sock_poll_term(&pl));
	SC(sc_sock_pipe_term(&p));
	check_owned("real time");
	vt_state(vt_hash(how, (uint64_t) ms));
}
#endif
