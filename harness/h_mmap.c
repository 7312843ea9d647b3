/* F01: memory maps of scratch files against a model of the file's bytes, with
 * recorded and failing system calls. */
#include "vt.h"
#include "sc_mmap.h"
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

static bool inside;
static int f_open, f_stat, f_falloc, f_mmap, f_munmap, f_msync, f_mlock, f_sysconf, n_eintr;
static int hits;
static int fds[16], nfd;
static struct {
	char *p;
	size_t len;
} maps[16];
static int nmap;
static struct {
	int calls, flags;
	char *p;
	size_t len;
} ms, ml, mu;

#define FAULT(f, r)                                                            \
	if (inside && (f)) {                                                   \
		hits++;                                                        \
		errno = (f);                                                   \
		return r;                                                      \
	}
int __real_open(const char *p, int fl, ...);
static int my_open(const char *p, int fl, mode_t m)
{
	FAULT(f_open, -1);
	int fd = __real_open(p, fl, m);
	if (inside && fd >= 0) {
		fds[nfd++] = fd;
	}
	return fd;
}
#define OPENLIKE(name)                                                         \
	int __wrap_##name(const char *p, int fl, ...)                          \
	{                                                                      \
		va_list va;                                                    \
		va_start(va, fl);                                              \
		mode_t m = (fl & O_CREAT) ? va_arg(va, mode_t) : 0;            \
		va_end(va);                                                    \
		return my_open(p, fl, m);                                      \
	}
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(name)                                                       \
	int __real_##name(int d, const char *p, int fl, ...);                  \
	int __wrap_##name(int d, const char *p, int fl, ...)                   \
	{                                                                      \
		va_list va;                                                    \
		va_start(va, fl);                                              \
		mode_t m = (fl & O_CREAT) ? va_arg(va, mode_t) : 0;            \
		va_end(va);                                                    \
		if (d == AT_FDCWD) {                                           \
			return my_open(p, fl, m);                              \
		}                                                              \
		return __real_##name(d, p, fl, m);                             \
	}
OPENATLIKE(openat)
OPENATLIKE(openat64)
int __real_close(int fd);
int __wrap_close(int fd)
{
	if (inside) {
		int k;
		for (k = 0; k < nfd && fds[k] != fd; k++) {}
		if (k == nfd) {
			vt_fail("descriptor %d is closed, which is not open here", fd);
		}
		fds[k] = fds[--nfd];
	}
	return __real_close(fd);
}
#define STATLIKE(name, T)                                                      \
	int __real_##name(T x, struct stat *st);                               \
	int __wrap_##name(T x, struct stat *st)                                \
	{                                                                      \
		FAULT(f_stat, -1);                                             \
		return __real_##name(x, st);                                   \
	}
STATLIKE(stat, const char *)
STATLIKE(stat64, const char *)
STATLIKE(fstat, int)
STATLIKE(fstat64, int)
#define FALLOC(name)                                                           \
	int __real_##name(int fd, off_t o, off_t l);                           \
	int __wrap_##name(int fd, off_t o, off_t l)                            \
	{                                                                      \
		if (inside && n_eintr > 0) {                                   \
			n_eintr--;                                             \
			return EINTR;                                          \
		}                                                              \
		if (inside && f_falloc) {                                      \
			hits++;                                                \
			errno = 0; /* the error is the return value */         \
			return f_falloc;                                       \
		}                                                              \
		return __real_##name(fd, o, l);                                \
	}
FALLOC(posix_fallocate)
FALLOC(posix_fallocate64)
#define TRUNC(name)                                                            \
	int __real_##name(int fd, off_t l);                                    \
	int __wrap_##name(int fd, off_t l)                                     \
	{                                                                      \
		FAULT(f_falloc, -1);                                           \
		return __real_##name(fd, l);                                   \
	}
TRUNC(ftruncate)
TRUNC(ftruncate64)
#define MMAP(name)                                                             \
	void *__real_##name(void *a, size_t n, int p, int f, int fd, off_t o); \
	void *__wrap_##name(void *a, size_t n, int p, int f, int fd, off_t o)  \
	{                                                                      \
		FAULT(f_mmap, MAP_FAILED);                                     \
		void *r = __real_##name(a, n, p, f, fd, o);                    \
		if (inside && r != MAP_FAILED) {                               \
			maps[nmap].p = r;                                      \
			maps[nmap++].len = n;                                  \
		}                                                              \
		return r;                                                      \
	}
MMAP(mmap)
MMAP(mmap64)
int __real_munmap(void *p, size_t n);
int __wrap_munmap(void *p, size_t n)
{
	if (inside) {
		int k;
		FAULT(f_munmap, -1);
		for (k = 0; k < nmap && (maps[k].p != (char *) p || maps[k].len != n); k++) {}
		if (k == nmap) {
			vt_fail("%zu bytes are unmapped that are not a mapping made here", n);
		}
		maps[k] = maps[--nmap];
	}
	return __real_munmap(p, n);
}
int __real_msync(void *p, size_t n, int fl);
int __wrap_msync(void *p, size_t n, int fl)
{
	if (inside) {
		ms.calls++;
		ms.p = p;
		ms.len = n;
		ms.flags = fl;
		FAULT(f_msync, -1);
	}
	return __real_msync(p, n, fl);
}
int __real_mlock(const void *p, size_t n);
int __wrap_mlock(const void *p, size_t n)
{
	if (inside) {
		ml.calls++;
		ml.p = (char *) p;
		ml.len = n;
		FAULT(f_mlock, -1);
	}
	return 0;
}
int __wrap_munlock(const void *p, size_t n)
{
	if (inside) {
		mu.calls++;
		mu.p = (char *) p;
		mu.len = n;
		FAULT(f_mlock, -1);
	}
	return 0;
}
long __real_sysconf(int n);
long __wrap_sysconf(int n)
{
	FAULT(f_sysconf, -1);
	return __real_sysconf(n);
}

#define PG 4096
#define CAP (16 * PG)
static char path[600], link1[600], link2[600], fresh_path[600];
static unsigned char model[CAP]; /* the file */
static long msize;

struct mp {
	struct sc_mmap *m;
	bool open_, wr, priv;
	size_t off, len;
	unsigned char own[CAP]; /* private copy of the window */
	bool touched[CAP / PG];
};
static struct mp M[2];

static void verify_file(const char *when)
{
	static unsigned char b[CAP + 1];
	struct stat st;
	if (__real_stat(path, &st) != 0) {
		vt_fail("the file is gone");
	}
	VT_CHECK(st.st_size == msize, "%s: the file has %ld bytes instead of %ld", when, (long) st.st_size, msize);
	int fd = __real_open(path, O_RDONLY | O_CLOEXEC);
	ssize_t n = pread(fd, b, sizeof(b), 0);
	__real_close(fd);
	VT_CHECK(n == msize, "%s: reading the file gives %ld bytes", when, (long) n);
	for (long i = 0; i < msize; i++) {
		if (b[i] != model[i]) {
			vt_fail("%s: byte %ld of the file is %02x instead of %02x", when, i, b[i], model[i]);
		}
	}
	vt_event((uint64_t) msize);
}
static void verify_map(struct mp *m, const char *when)
{
	long in = msize - (long) m->off; /* bytes of the window inside the file */
	if (in > (long) m->len) {
		in = (long) m->len;
	}
	for (long i = 0; i < in; i++) {
		unsigned char w = m->priv && m->touched[(size_t) i / PG] ? m->own[i] : model[m->off + (size_t) i];
		unsigned char g = ((volatile unsigned char *) m->m->ptr)[i];
		if (g != w) {
			vt_fail("%s: byte %ld of the window (offset %zu) reads %02x instead of %02x", when, i, m->off, g, w);
		}
	}
	vt_event(in > 0 ? (uint64_t) in : 0);
}
static void check_err(struct mp *m, const char *what)
{
	const char *e = sc_mmap_err(m->m);
	VT_CHECK(e && e[0] && strnlen(e, sizeof(m->m->err)) < sizeof(m->m->err), "%s fails without a message", what);
}

static void do_init(struct mp *m)
{
	static const struct {
		int *f, e;
		const char *n;
	} fl[] = {{&f_open, EMFILE, "open"}, {&f_open, EACCES, "open"}, {&f_stat, EIO, "stat"}, {&f_falloc, ENOSPC, "extension"},
		  {&f_mmap, ENOMEM, "map"}, {&f_sysconf, EINVAL, "page size"}};
	int kind = (int) vt_below(10), k = -1, rc, flags, prot, mflags = MAP_SHARED;
	size_t off = (size_t) vt_below(5) * PG, len;
	const char *name = path;
	bool must_fail = false, may_fail = false;
	switch (vt_below(5)) {
	case 0: len = 0; break;
	case 1: len = (size_t) vt_range(1, 40); break;
	case 2: len = (size_t) vt_range(1, 4) * PG; break;
	default: len = (size_t) vt_range(1, 6 * PG); break;
	}
	m->wr = vt_chance(3, 4);
	m->priv = vt_chance(1, 5);
	prot = m->wr ? PROT_READ | PROT_WRITE : PROT_READ;
	flags = m->wr ? O_RDWR : vt_chance(1, 2) ? O_RDONLY : O_RDWR;
	flags |= O_CLOEXEC | (vt_chance(1, 2) ? O_CREAT : 0);
	mflags = m->priv ? MAP_PRIVATE : MAP_SHARED;
	nfd = nfd;
	if (kind == 0) { /* hostile arguments */
		must_fail = true;
		switch (vt_below(6)) {
		case 0: name = "/nonexistent-dir-of-the-monitor/x"; break;
		case 1: name = vt_tmpdir; m->wr = true; flags = O_RDWR; prot = PROT_READ | PROT_WRITE; break;
		case 2: off += 1 + vt_below(PG - 1); may_fail = true; break;
		case 3: flags = O_RDONLY; m->wr = true; prot = PROT_READ | PROT_WRITE; mflags = MAP_SHARED; m->priv = false; break;
		case 4: mflags = 0; break; /* neither shared nor private */
		default: len = (size_t) -1 - vt_below(5000); break;
		}
		(void) may_fail;
		vt_class("impossible");
	} else if (kind == 1) {
		k = (int) vt_below(6);
		*fl[k].f = fl[k].e;
	} else if (kind == 2) {
		n_eintr = (int) vt_range(1, vt_chance(1, 10) ? 500 : 3);
		vt_class("extension-interrupted");
	}
	if (name == path && vt_chance(1, 6)) {
		name = vt_chance(1, 2) ? link1 : link2;
		vt_class("symbolic-link");
	}
	size_t want = len == 0 ? (size_t) (msize - (long) off) : len;
	if (len == 0 && (long) off >= msize) {
		must_fail = true; /* nothing to map */
	}
	struct sc_mmap *obj = m->m;
	memset(obj, (int) vt_rnd() & 0xff, sizeof(*obj));
	int of = nfd, om = nmap, fdc = vt_fd_count();
	hits = 0;
	errno = 0;
	inside = true;
	rc = sc_mmap_init(obj, name, flags, prot, mflags, off, len);
	inside = false;
	bool injected = k >= 0 && hits > 0;
	f_open = f_stat = f_falloc = f_mmap = f_sysconf = n_eintr = 0;
	vt_log("init(%s, offset %zu, len %zu, %s %s)%s%s -> %d", name == path ? "file" : strrchr(name, '/'), off, len, m->wr ? "writable" : "read-only", m->priv ? "private" : "shared",
	       injected ? " with failing " : "", injected ? fl[k].n : "", rc);
	if (must_fail || injected) {
		VT_CHECK(rc < 0, "an impossible or failing mapping succeeds (offset %zu, len %zu)", off, len);
		check_err(m, "init");
		VT_CHECK(nfd == of && vt_fd_count() == fdc, "a failing init leaves a descriptor");
		VT_CHECK(nmap == om, "a failing init leaves a mapping");
		if (injected) {
			vt_class(fl[k].n);
		}
		/* the file may have been extended already, its bytes are the same */
		struct stat st;
		__real_stat(path, &st);
		VT_CHECK(st.st_size >= msize, "a failing init shortens the file");
		if (st.st_size > msize) {
			if (st.st_size > CAP) {
				vt_die("file too long");
			}
			msize = (long) st.st_size;
		}
		inside = true;
		rc = sc_mmap_term(obj);
		inside = false;
		VT_CHECK(rc == 0, "terminating after a failing init returns %d", rc);
		verify_file("after a failing init");
		return;
	}
	VT_CHECK(rc == 0, "init fails: %s", sc_mmap_err(obj));
	m->open_ = true;
	m->off = off;
	m->len = want;
	memset(m->touched, 0, sizeof(m->touched));
	VT_CHECK(obj->ptr && obj->len == want, "the window has %zu bytes instead of %zu", obj->len, want);
	VT_CHECK(nmap == om + 1 && nfd <= of + 1, "init made %d mappings and %d descriptors", nmap - om, nfd - of);
	if (m->wr && (long) (off + want) > msize) {
		msize = (long) (off + want);
		vt_class("extended");
	}
	verify_file("after init");
	verify_map(m, "after init");
	vt_class(m->priv ? "private" : m->wr ? "writable" : "read-only");
	if (off) {
		vt_class("offset");
	}
	if (len == 0) {
		vt_class("rest-of-file");
	}
}
static void do_term(struct mp *m)
{
	int rc, fdc = vt_fd_count();
	char *p = (char *) m->m->ptr;
	size_t len = m->m->len;
	bool fault = vt_chance(1, 10);
	int of = nfd, om = nmap;
	f_munmap = fault ? EINVAL : 0;
	hits = 0;
	inside = true;
	rc = sc_mmap_term(m->m);
	inside = false;
	f_munmap = 0;
	vt_log("term -> %d", rc);
	VT_CHECK(nfd == of - 1 && vt_fd_count() == fdc - 1, "term leaves the descriptor open");
	if (fault) {
		VT_CHECK(rc == -1, "a failing unmap gives %d", rc);
		check_err(m, "term");
		for (int k = 0; k < nmap; k++) {
			if (maps[k].p == p) {
				maps[k] = maps[--nmap];
			}
		}
		__real_munmap(p, len);
		vt_class("failing-unmap");
	} else {
		VT_CHECK(rc == 0, "term fails");
		VT_CHECK(nmap == om - 1, "term leaves the mapping");
	}
	m->open_ = false;
	for (int i = (int) vt_below(3); i > 0; i--) {
		inside = true;
		rc = sc_mmap_term(m->m);
		inside = false;
		VT_CHECK(rc == 0, "term again gives %d", rc);
		vt_class("term-again");
	}
	verify_file("after term");
}
static void do_sync(struct mp *m, int what)
{
	static const char *nm[] = {"msync", "mlock", "munlock"};
	size_t o = vt_chance(1, 3) ? (size_t) vt_below(m->len / PG + 1) * PG : (size_t) vt_below(m->len), n;
	int rc, fault = vt_chance(1, 10) ? what == 0 ? EIO : EAGAIN : 0;
	if (o >= m->len) {
		o = 0;
	}
	n = vt_chance(1, 3) ? m->len - o : (size_t) vt_range(1, (int64_t) (m->len - o));
	memset(&ms, 0, sizeof(ms));
	memset(&ml, 0, sizeof(ml));
	memset(&mu, 0, sizeof(mu));
	*(what == 0 ? &f_msync : &f_mlock) = fault;
	hits = 0;
	inside = true;
	rc = what == 0 ? sc_mmap_msync(m->m, o, n) : what == 1 ? sc_mmap_mlock(m->m, o, n) : sc_mmap_munlock(m->m, o, n);
	inside = false;
	f_msync = f_mlock = 0;
	vt_log("%s(%zu, %zu) -> %d", nm[what], o, n, rc);
	char *lo = what == 0 ? ms.p : what == 1 ? ml.p : mu.p, *base = (char *) m->m->ptr;
	size_t l = what == 0 ? ms.len : what == 1 ? ml.len : mu.len;
	int calls = what == 0 ? ms.calls : what == 1 ? ml.calls : mu.calls;
	VT_CHECK(calls == 1, "%s makes %d requests", nm[what], calls);
	/* the system rounds the end (and for locks the start) to pages */
	VT_CHECK(what == 0 ? (uintptr_t) lo % PG == 0 : true, "%s of an unaligned address", nm[what]);
	char *first = (char *) ((uintptr_t) lo / PG * PG);
	VT_CHECK(first <= base + o && lo + l >= base + o + n, "%s(%zu, %zu) covers only %ld..%ld of the window", nm[what], o, n, (long) (lo - base),
		 (long) (lo - base + (long) l));
	VT_CHECK(first >= base && lo + l <= base + (m->len + PG - 1) / PG * PG, "%s(%zu, %zu) leaves the window", nm[what], o, n);
	if (what != 0) { /* other pages keep their state */
		VT_CHECK(first == base + o / PG * PG && (uintptr_t) lo + l <= ((uintptr_t) base + o + n + PG - 1) / PG * PG,
			 "%s(%zu, %zu) is done for %ld..%ld of the window", nm[what], o, n, (long) (lo - base), (long) (lo - base + (long) l));
	}
	if (what == 0) {
		VT_CHECK(ms.flags & MS_SYNC, "sync does not wait (flags %d)", ms.flags);
	}
	if (fault) {
		VT_CHECK(rc < 0, "a failing %s gives %d", nm[what], rc);
		check_err(m, nm[what]);
		vt_class("failing-sync-or-lock");
	} else {
		VT_CHECK(rc == 0, "%s fails", nm[what]);
	}
	vt_class(nm[what]);
	if (o % PG) {
		vt_class("unaligned-range");
	}
}

static bool reserves; /* this file system shows what is reserved */
/* a sparse file longer than 4 GiB */
static void past(void)
{
	const uint64_t G = 1ull << 32;
	uint64_t size = G + (1ull << 30) + vt_below(3 * PG), at[5], off = 0, len = 0, want;
	unsigned char v[5][8], b[8];
	struct sc_mmap *m = M[0].m;
	int kind = (int) vt_below(4), fdc = vt_fd_count(), rc;
	unlink(path);
	int fd = __real_open(path, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	if (fd < 0 || __real_ftruncate(fd, (off_t) size) != 0) {
		vt_die("cannot make a sparse file");
	}
	at[0] = vt_below(PG * 4);
	at[1] = (1ull << 31) - vt_below(20);
	at[2] = G - vt_below(16);
	at[3] = G + PG + vt_below(PG * 8);
	at[4] = size - 8;
	for (int i = 0; i < 5; i++) {
		uint64_t x = vt_rnd() | 0x0101010101010101ull;
		memcpy(v[i], &x, 8);
		if (pwrite(fd, v[i], 8, (off_t) at[i]) != 8) {
			vt_die("pwrite");
		}
	}
	if (kind == 0) {
		off = vt_chance(1, 2) ? 0 : PG * vt_below(4); /* everything */
	} else if (kind == 1) {
		off = G + PG * vt_below(4); /* the rest */
	} else if (kind == 2) {
		off = G - PG * vt_below(4); /* a window */
		len = vt_range(1, 20) * PG - vt_below(PG);
	} else {
		len = G + 1 + vt_below(PG * 4); /* long */
	}
	bool wr = kind == 2 && vt_chance(3, 4), grows = wr && vt_chance(1, 2);
	if (grows) {
		off = size / PG * PG - PG * vt_below(2);
		len = (uint64_t) vt_range(2, 20) * PG;
	}
	want = len ? len : size - off;
	struct stat bs;
	__real_stat(path, &bs);
	inside = true;
	rc = sc_mmap_init(m, path, (wr ? O_RDWR : O_RDONLY) | O_CLOEXEC, wr ? PROT_READ | PROT_WRITE : PROT_READ, vt_chance(1, 4) && !wr ? MAP_PRIVATE : MAP_SHARED, off, len);
	inside = false;
	vt_log("init of a %" PRIu64 " byte file at %" PRIu64 ", %" PRIu64 " bytes, %s -> %d", size, off, len, wr ? "writable" : "read-only", rc);
	VT_CHECK(rc == 0, "init fails: %s", sc_mmap_err(m));
	VT_CHECK(m->len == want, "the window has %zu bytes instead of %" PRIu64, m->len, want);
	struct stat st;
	__real_stat(path, &st);
	uint64_t now = wr && off + len > size ? off + len : size;
	VT_CHECK((uint64_t) st.st_size == now, "the file has %" PRIu64 " bytes instead of %" PRIu64, (uint64_t) st.st_size, now);
	if (wr && reserves && want / PG > 6) { /* at most 5 pages were there */
		uint64_t got = (uint64_t) (st.st_blocks - bs.st_blocks) * 512;
		VT_CHECK(got >= (want / PG - 6) * PG, "a writable window of %" PRIu64 " bytes has storage for %" PRIu64 " more: writing may find the disk full", want, got);
		vt_class("storage-reserved");
	}
	for (int i = 0; i < 5; i++) {
		if (at[i] >= off && at[i] + 8 <= off + want) {
			VT_CHECK(memcmp(m->ptr + (at[i] - off), v[i], 8) == 0, "byte %" PRIu64 " of the file reads differently in the window at %" PRIu64, at[i], off);
			vt_event(8);
		}
		if (wr && at[i] >= off && at[i] + 8 <= off + want) {
			v[i][3] ^= 0x5a;
			m->ptr[at[i] - off + 3] = v[i][3];
		}
		VT_CHECK(pread(fd, b, 8, (off_t) at[i]) == 8 && memcmp(b, v[i], 8) == 0, "byte %" PRIu64 " of the file differs from what was written", at[i]);
	}
	for (int what = 0; what < 3; what++) {
		uint64_t o = want > G && vt_chance(2, 3) ? G + vt_below(want - G) : vt_below(want), n = 1 + vt_below(vt_chance(1, 3) ? want - o : want - o < 9000 ? want - o : 9000);
		memset(&ms, 0, sizeof(ms));
		memset(&ml, 0, sizeof(ml));
		memset(&mu, 0, sizeof(mu));
		inside = true;
		rc = what == 0 ? sc_mmap_msync(m, o, n) : what == 1 ? sc_mmap_mlock(m, o, n) : sc_mmap_munlock(m, o, n);
		inside = false;
		char *lo = what == 0 ? ms.p : what == 1 ? ml.p : mu.p, *base = (char *) m->ptr;
		size_t l = what == 0 ? ms.len : what == 1 ? ml.len : mu.len;
		vt_log("%d: (%" PRIu64 ", %" PRIu64 ") -> %d", what, o, n, rc);
		VT_CHECK(rc == 0, "request %d of %" PRIu64 " bytes at %" PRIu64 " fails", what, n, o);
		VT_CHECK((char *) ((uintptr_t) lo / PG * PG) <= base + o && lo + l >= base + o + n, "request %d of %" PRIu64 " bytes at %" PRIu64 " covers %ld..%ld", what, n, o,
			 (long) (lo - base), (long) (lo - base + (long) l));
	}
	inside = true;
	rc = sc_mmap_term(m);
	inside = false;
	VT_CHECK(rc == 0 && nmap == 0 && nfd == 0, "term returns %d, %d mappings and %d descriptors stay", rc, nmap, nfd);
	__real_close(fd);
	VT_CHECK(vt_fd_count() == fdc, "descriptors stay open");
	unlink(path);
	vt_class("past-4-gib");
	vt_state(vt_hash(vt_hash(off, want), size));
}

/* a file that does not exist yet */
static void fresh(void)
{
	struct sc_mmap *m = M[0].m;
	mode_t um = vt_chance(1, 2) ? 0 : vt_chance(1, 2) ? 022 : 077, old;
	size_t off = (size_t) vt_below(4) * PG, len = vt_chance(1, 6) ? 0 : (size_t) vt_range(1, 5 * PG);
	bool create = vt_chance(5, 6);
	int fdc = vt_fd_count(), rc;
	struct stat st;
	unlink(fresh_path);
	old = umask(um);
	memset(m, 0x5a, sizeof(*m));
	inside = true;
	rc = sc_mmap_init(m, fresh_path, O_RDWR | O_CLOEXEC | (create ? O_CREAT : 0) | (vt_chance(1, 3) && create ? O_EXCL : 0), PROT_READ | PROT_WRITE, MAP_SHARED, off, len);
	inside = false;
	umask(old);
	vt_log("init of a new file, mask %o, offset %zu, len %zu, %s -> %d", (unsigned) um, off, len, create ? "created" : "not created", rc);
	if (!create || len == 0) {
		VT_CHECK(rc < 0, "%s is mapped", create ? "nothing" : "a file that does not exist");
		check_err(&M[0], "init");
		VT_CHECK(create || __real_stat(fresh_path, &st) != 0, "a file is made without being asked for");
	} else {
		VT_CHECK(rc == 0, "init fails: %s", sc_mmap_err(m));
		VT_CHECK(__real_stat(fresh_path, &st) == 0 && (size_t) st.st_size == off + len, "the new file has %ld bytes instead of %zu", (long) st.st_size, off + len);
		VT_CHECK((st.st_mode & 07777) == (0644 & ~um), "the new file has mode %o with mask %o", (unsigned) st.st_mode & 07777, (unsigned) um);
		VT_CHECK(m->len == len, "the window has %zu bytes instead of %zu", m->len, len);
		for (size_t i = 0; i < len; i++) {
			VT_CHECK(m->ptr[i] == 0, "byte %zu of a new file is %02x", i, m->ptr[i]);
		}
		unsigned char b, w = (unsigned char) (1 + vt_below(255));
		size_t at = (size_t) vt_below(len);
		m->ptr[at] = w;
		int fd = __real_open(fresh_path, O_RDONLY | O_CLOEXEC);
		VT_CHECK(pread(fd, &b, 1, (off_t) (off + at)) == 1 && b == w, "the new file does not show what is written through the mapping");
		__real_close(fd);
		vt_class("created-file");
	}
	inside = true;
	rc = sc_mmap_term(m);
	inside = false;
	VT_CHECK(rc == 0 && nmap == 0 && nfd == 0 && vt_fd_count() == fdc, "term returns %d, %d mappings and %d descriptors stay", rc, nmap, nfd);
	unlink(fresh_path);
	vt_state(vt_hash(vt_hash(off, len), um + 5));
}

void vt_setup(void)
{
	struct stat st;
	snprintf(path, sizeof(path), "%s/file", vt_tmpdir);
	snprintf(link1, sizeof(link1), "%s/link", vt_tmpdir);
	snprintf(link2, sizeof(link2), "%s/a-link-to-a-link", vt_tmpdir);
	snprintf(fresh_path, sizeof(fresh_path), "%s/new", vt_tmpdir);
	unlink(link1);
	unlink(link2);
	if (symlink(path, link1) != 0 || symlink("link", link2) != 0) {
		vt_die("symlink");
	}
	int fd = __real_open(path, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	if (fd >= 0 && __real_ftruncate(fd, 65536) == 0 && __real_stat(path, &st) == 0 && st.st_blocks == 0 && __real_posix_fallocate(fd, 0, 65536) == 0 &&
	    __real_stat(path, &st) == 0) {
		reserves = st.st_blocks * 512 >= 65536;
	}
	__real_close(fd);
	M[0].m = vt_malloc(sizeof(struct sc_mmap));
	M[1].m = vt_malloc(sizeof(struct sc_mmap));
}
void vt_case(uint64_t cn)
{
	int steps = (int) vt_range(3, 25);
	uint64_t h = 0;
	if (cn % 100 == 77) {
		past();
		return;
	}
	if (vt_chance(1, 20)) {
		fresh();
		return;
	}
	msize = vt_chance(1, 6) ? 0 : vt_chance(1, 3) ? (long) vt_below(4) * PG : (long) vt_below(6 * PG);
	memset(model, 0, sizeof(model));
	for (long i = 0; i < msize; i += 8) {
		uint64_t v = vt_rnd();
		memcpy(model + i, &v, 8);
	}
	memset(model + msize, 0, (size_t) (CAP - msize));
	unlink(path);
	int fd = __real_open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, model, (size_t) msize) != msize) {
		vt_die("cannot write the scratch file");
	}
	__real_close(fd);
	int fdc = vt_fd_count();
	h = (uint64_t) msize;
	for (int s = 0; s < steps; s++) {
		struct mp *m = &M[vt_chance(1, 3)];
		if (!m->open_) {
			do_init(m);
			continue;
		}
		int k = (int) vt_below(12);
		h = vt_hash(h, (uint64_t) k + m->off * 16 + m->len * 1000000);
		long in = msize - (long) m->off < (long) m->len ? msize - (long) m->off : (long) m->len;
		if (k < 4) { /* write through the mapping */
			if (!m->wr || in <= 0) {
				continue;
			}
			size_t o = vt_chance(1, 4) ? (size_t) (in - 1) : (size_t) vt_below((uint64_t) in);
			size_t n = (size_t) vt_range(1, (int64_t) ((size_t) in - o < 300 ? (size_t) in - o : 300));
			for (size_t i = 0; i < n; i++) {
				size_t at = o + i;
				if (m->priv && !m->touched[at / PG]) {
					/* the page becomes the mapping's own */
					size_t b = at / PG * PG;
					memcpy(m->own + b, model + m->off + b, PG);
					m->touched[at / PG] = true;
				}
				unsigned char v = (unsigned char) vt_rnd();
				m->m->ptr[at] = v;
				if (m->priv) {
					m->own[at] = v;
				} else {
					model[m->off + at] = v;
				}
			}
			vt_log("write %zu bytes at %zu", n, o);
			verify_file("after writing through the mapping");
			vt_class("written-through");
		} else if (k < 6) { /* write the file */
			if (msize == 0) {
				continue;
			}
			long o = (long) vt_below((uint64_t) msize), n = (long) vt_range(1, msize - o < 500 ? msize - o : 500);
			for (long i = 0; i < n; i++) {
				model[o + i] = (unsigned char) vt_rnd();
			}
			int f = __real_open(path, O_WRONLY | O_CLOEXEC);
			if (pwrite(f, model + o, (size_t) n, o) != n) {
				vt_die("pwrite");
			}
			__real_close(f);
			vt_log("file written, %ld bytes at %ld", n, o);
			vt_class("file-written");
		} else if (k < 10) {
			if (m->len > 0) {
				do_sync(m, k < 8 ? 0 : k - 7);
			}
		} else {
			do_term(m);
			continue;
		}
		for (int i = 0; i < 2; i++) {
			if (M[i].open_) {
				verify_map(&M[i], "after an operation");
			}
		}
		if (M[0].open_ && M[1].open_) {
			vt_class("two-mappings");
		}
	}
	for (int i = 0; i < 2; i++) {
		if (M[i].open_) {
			do_term(&M[i]);
		}
	}
	VT_CHECK(nfd == 0 && nmap == 0, "%d descriptors and %d mappings stay", nfd, nmap);
	VT_CHECK(vt_fd_count() == fdc, "descriptors stay open");
	vt_state(h);
	if (vt_want_sample()) {
		vt_sample("%d operations, file finally %ld bytes, all windows and the file agreed with the model after each", steps, msize);
	}
}
