#include "vt.h"

#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

uint64_t vt_seed = 1;
bool vt_thorough;
bool vt_verbose;
uint64_t vt_case_no;
const char *vt_tmpdir = "/tmp";
vt_rng vt_r;

__attribute__((weak)) void vt_setup(void)
{
}
__attribute__((weak)) void *vt_raw_malloc(size_t n) { return malloc(n); }
__attribute__((weak)) void *vt_raw_calloc(size_t n, size_t m) { return calloc(n, m); }
__attribute__((weak)) void *vt_raw_realloc(void *p, size_t n) { return realloc(p, n); }
__attribute__((weak)) void vt_raw_free(void *p) { free(p); }
__attribute__((weak)) void vt_alloc_reset(void)
{
}

void *vt_malloc(size_t n)
{
	void *p = vt_raw_malloc(n ? n : 1);
	if (!p) {
		vt_die("out of memory in the monitor");
	}
	return p;
}
void *vt_calloc(size_t n, size_t m)
{
	void *p = vt_raw_calloc(n ? n : 1, m ? m : 1);
	if (!p) {
		vt_die("out of memory in the monitor");
	}
	return p;
}
void *vt_realloc(void *q, size_t n)
{
	void *p = vt_raw_realloc(q, n ? n : 1);
	if (!p) {
		vt_die("out of memory in the monitor");
	}
	return p;
}
void vt_free(void *p)
{
	vt_raw_free(p);
}

uint64_t vt_edge_r(vt_rng *r)
{
	uint64_t v;
	switch (vt_below_r(r, 8)) {
	case 0:
		return vt_below_r(r, 4);
	case 1:
		return vt_below_r(r, 300);
	case 2: /* around a power of two */
		v = 1ull << vt_below_r(r, 64);
		return v + vt_below_r(r, 5) - 2;
	case 3:
		return UINT64_MAX - vt_below_r(r, 20);
	case 4:
		return (uint64_t) INT64_MAX + vt_below_r(r, 5) - 2;
	case 5:
		return vt_rnd_r(r) >> vt_below_r(r, 64);
	case 6: /* around a power of ten */
		v = 1;
		for (uint64_t i = vt_below_r(r, 20); i > 0; i--) {
			v *= 10;
		}
		return v + vt_below_r(r, 3) - 1;
	default:
		return vt_rnd_r(r);
	}
}
uint64_t vt_edge64(void)
{
	return vt_edge_r(&vt_r);
}

uint64_t vt_size(uint64_t max)
{
	unsigned bits = 0;
	uint64_t v;
	while (bits < 63 && (1ull << bits) <= max) {
		bits++;
	}
	v = vt_rnd() & ((1ull << vt_below(bits + 1)) - 1);
	if (vt_chance(1, 6)) { /* around a power of two */
		v = (1ull << vt_below(bits + 1)) + vt_below(3) - 1;
	}
	return v > max ? vt_below(max + 1) : v;
}

uint64_t vt_now_us(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (uint64_t) ts.tv_sec * 1000000u + (uint64_t) ts.tv_nsec / 1000u;
}

uint64_t vt_hash_bytes(uint64_t h, const void *p, size_t n)
{
	const unsigned char *c = p;
	h ^= n * 0x9e3779b97f4a7c15ull;
	for (size_t i = 0; i < n; i++) {
		h = (h ^ c[i]) * 0x100000001b3ull;
	}
	return vt_mix(h);
}

/* ------------------------------------------------------------ statistics */
static uint64_t ev_total;
#define SET_CAP (1u << 19)
static uint64_t *set_slots;
static uint64_t set_n, set_over;
static pthread_mutex_t st_mtx = PTHREAD_MUTEX_INITIALIZER;
#define CLS_MAX 400
static struct {
	char name[48];
	uint64_t n;
} cls[CLS_MAX];
static int cls_n;
#define SMP_MAX 6
static char smp[SMP_MAX][900];
static int smp_n;

void vt_event(uint64_t n)
{
	__atomic_fetch_add(&ev_total, n, __ATOMIC_RELAXED);
}

void vt_state(uint64_t h)
{
	pthread_mutex_lock(&st_mtx);
	if (!set_slots) {
		set_slots = vt_calloc(SET_CAP, sizeof(*set_slots));
	}
	if (h == 0) {
		h = 1;
	}
	uint64_t i = h & (SET_CAP - 1);
	while (set_slots[i] != 0 && set_slots[i] != h) {
		i = (i + 1) & (SET_CAP - 1);
	}
	if (set_slots[i] == 0) {
		if (set_n < SET_CAP / 2) {
			set_slots[i] = h;
			set_n++;
		} else {
			set_over++;
		}
	}
	pthread_mutex_unlock(&st_mtx);
}

void vt_class_n(const char *name, uint64_t n)
{
	pthread_mutex_lock(&st_mtx);
	int i;
	for (i = 0; i < cls_n; i++) {
		if (strcmp(cls[i].name, name) == 0) {
			break;
		}
	}
	if (i == cls_n && cls_n < CLS_MAX) {
		snprintf(cls[i].name, sizeof(cls[i].name), "%s", name);
		cls_n++;
	}
	if (i < CLS_MAX) {
		cls[i].n += n;
	}
	pthread_mutex_unlock(&st_mtx);
}

void vt_class(const char *name)
{
	vt_class_n(name, 1);
}

bool vt_want_sample(void)
{
	return smp_n < SMP_MAX;
}

void vt_sample(const char *fmt, ...)
{
	va_list va;
	pthread_mutex_lock(&st_mtx);
	if (smp_n < SMP_MAX) {
		va_start(va, fmt);
		vsnprintf(smp[smp_n], sizeof(smp[0]), fmt, va);
		va_end(va);
		smp_n++;
	}
	pthread_mutex_unlock(&st_mtx);
}

/* ------------------------------------------------------------------ trace */
#define LOG_LINES 256
#define LOG_W 240
static char log_ring[LOG_LINES][LOG_W];
static uint64_t log_pos;

static int err_fd = 2; /* where diagnostics go, even if a monitor replaces fd 2 */

static void raw_out(const char *s, size_t n)
{
	ssize_t r = write(err_fd, s, n);
	(void) r;
}

void vt_log_reset(void)
{
	log_pos = 0;
}

void vt_log(const char *fmt, ...)
{
	va_list va;
	uint64_t p = __atomic_fetch_add(&log_pos, 1, __ATOMIC_RELAXED);
	va_start(va, fmt);
	vsnprintf(log_ring[p % LOG_LINES], LOG_W, fmt, va);
	va_end(va);
	if (vt_verbose) {
		char tmp[LOG_W + 8];
		int n = snprintf(tmp, sizeof(tmp), "  %s\n", log_ring[p % LOG_LINES]);
		raw_out(tmp, (size_t) n);
	}
}

static int fail_once;
static void dump_trace(void)
{
	char tmp[LOG_W + 64];
	uint64_t end = log_pos;
	uint64_t beg = end > LOG_LINES ? end - LOG_LINES : 0;
	int n;
	if (vt_verbose) {
		return;
	}
	n = snprintf(tmp, sizeof(tmp), "VT-TRACE case=%" PRIu64 " (last %" PRIu64 " of %" PRIu64 " steps)\n",
		     vt_case_no, end - beg, end);
	raw_out(tmp, (size_t) n);
	for (uint64_t i = beg; i < end; i++) {
		n = snprintf(tmp, sizeof(tmp), "  %s\n", log_ring[i % LOG_LINES]);
		raw_out(tmp, (size_t) n);
	}
}

_Noreturn void vt_fail_at(const char *key, const char *file, int line,
			  const char *fmt, ...)
{
	static char tmp[4096], msg[3000];
	va_list va;
	int n;

	if (__atomic_exchange_n(&fail_once, 1, __ATOMIC_SEQ_CST) != 0) {
		for (;;) {
			pause();
		}
	}
	va_start(va, fmt);
	vsnprintf(msg, sizeof(msg), fmt, va);
	va_end(va);
	const char *b = strrchr(file, '/');
	n = snprintf(tmp, sizeof(tmp), "VT-FAIL key=%s case=%" PRIu64 " at=%s:%d: %s\n", key,
		     vt_case_no, b ? b + 1 : file, line, msg);
	raw_out(tmp, (size_t) (n < (int) sizeof(tmp) ? n : (int) sizeof(tmp) - 1));
	dump_trace();
	_exit(VT_FAIL_EXIT);
}

_Noreturn void vt_die(const char *fmt, ...)
{
	static char m[1000], t[1100];
	va_list va;
	va_start(va, fmt);
	vsnprintf(m, sizeof(m), fmt, va);
	va_end(va);
	raw_out(t, (size_t) snprintf(t, sizeof(t), "VT-DIE case=%" PRIu64 ": %s\n", vt_case_no, m));
	_exit(VT_DIE_EXIT);
}

static void on_abort(int sig)
{
	(void) sig;
	dump_trace();
	signal(SIGABRT, SIG_DFL);
	raise(SIGABRT);
}

extern void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));

char *vt_hex(const void *p, size_t n)
{
	static char buf[4][400];
	static int k;
	char *o = buf[k++ & 3];
	size_t m = n > 190 ? 190 : n;
	for (size_t i = 0; i < m; i++) {
		sprintf(o + 2 * i, "%02x", ((const unsigned char *) p)[i]);
	}
	o[2 * m] = 0;
	if (m < n) {
		strcpy(o + 2 * m, "..");
	}
	return o;
}

char *vt_quote(const void *p, size_t n)
{
	static char buf[8][700];
	static int k;
	char *o = buf[k++ & 7], *s = o;
	const unsigned char *c = p;
	if (!p) {
		return strcpy(o, "(null)");
	}
	*s++ = '"';
	for (size_t i = 0; i < n; i++) {
		if (s - o > 680) {
			strcpy(s, "..");
			s += 2;
			break;
		}
		if (c[i] == '"' || c[i] == '\\') {
			*s++ = '\\';
			*s++ = (char) c[i];
		} else if (c[i] == '\n') {
			*s++ = '\\';
			*s++ = 'n';
		} else if (c[i] >= 32 && c[i] < 127) {
			*s++ = (char) c[i];
		} else {
			s += sprintf(s, "\\x%02x", c[i]);
		}
	}
	*s++ = '"';
	*s = 0;
	return o;
}

int vt_fd_count(void)
{
	int n = 0;
	for (int fd = 0; fd < 1024; fd++) {
		if (fcntl(fd, F_GETFD) != -1) {
			n++;
		}
	}
	return n;
}

/* ------------------------------------------------------------------- main */
static void json_str(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = (unsigned char) *s;
		if (c == '"' || c == '\\') {
			fprintf(f, "\\%c", c);
		} else if (c < 32 || c > 126) {
			fprintf(f, "\\u%04x", c);
		} else {
			fputc(c, f);
		}
	}
	fputc('"', f);
}

static void write_stats(const char *path, uint64_t cases)
{
	FILE *f;
	char hp[4096];

	if (!path) {
		return;
	}
	snprintf(hp, sizeof(hp), "%s.hash", path);
	f = fopen(hp, "wb");
	if (f) {
		for (uint64_t i = 0; set_slots && i < SET_CAP; i++) {
			if (set_slots[i]) {
				fwrite(&set_slots[i], 8, 1, f);
			}
		}
		fclose(f);
	}
	f = fopen(path, "w");
	if (!f) {
		vt_die("cannot write %s", path);
	}
	fprintf(f, "{\"cases\": %" PRIu64 ", \"events\": %" PRIu64 ", \"states_over\": %" PRIu64 ", \"classes\": {", cases,
		ev_total, set_over);
	for (int i = 0; i < cls_n; i++) {
		fprintf(f, "%s", i ? ", " : "");
		json_str(f, cls[i].name);
		fprintf(f, ": %" PRIu64, cls[i].n);
	}
	fprintf(f, "}, \"samples\": [");
	for (int i = 0; i < smp_n; i++) {
		fprintf(f, "%s", i ? ", " : "");
		json_str(f, smp[i]);
	}
	fprintf(f, "]}\n");
	fclose(f);
}

/* Name of this build, folded into the case seeds so that variants differ. */
__attribute__((weak)) const uint64_t vt_salt = 0;

int main(int argc, char **argv)
{
	uint64_t from = 0, step = 1, cases = 1, done = 0, salt = 0, first = 0;
	double budget = 0;
	const char *stats = NULL, *progress = NULL;
	volatile uint64_t *prog = NULL;
	uint64_t start;

	for (int i = 1; i + 1 < argc; i += 2) {
		const char *k = argv[i], *v = argv[i + 1];
		if (!strcmp(k, "--seed")) {
			vt_seed = strtoull(v, NULL, 10);
		} else if (!strcmp(k, "--from")) {
			from = strtoull(v, NULL, 10);
		} else if (!strcmp(k, "--step")) {
			step = strtoull(v, NULL, 10);
		} else if (!strcmp(k, "--cases")) {
			cases = strtoull(v, NULL, 10);
		} else if (!strcmp(k, "--first")) {
			first = strtoull(v, NULL, 10);
		} else if (!strcmp(k, "--salt")) {
			salt = strtoull(v, NULL, 10);
		} else if (!strcmp(k, "--budget")) {
			budget = strtod(v, NULL);
		} else if (!strcmp(k, "--tier")) {
			vt_thorough = !strcmp(v, "thorough");
		} else if (!strcmp(k, "--verbose")) {
			vt_verbose = atoi(v) != 0;
		} else if (!strcmp(k, "--stats")) {
			stats = v;
		} else if (!strcmp(k, "--progress")) {
			progress = v;
		} else if (!strcmp(k, "--tmp")) {
			vt_tmpdir = v;
		}
	}
	if (progress) {
		int fd = open(progress, O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, 4096) != 0) {
			vt_die("progress file");
		}
		prog = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
		if (prog == MAP_FAILED) {
			vt_die("progress map");
		}
	}
	if (__sanitizer_set_death_callback) {
		__sanitizer_set_death_callback(dump_trace);
	}
	signal(SIGABRT, on_abort);
	err_fd = fcntl(2, F_DUPFD_CLOEXEC, 900);
	if (err_fd < 0) {
		err_fd = 2;
	}

	start = vt_now_us();
	vt_r.s = vt_mix(vt_seed * 77 + salt);
	vt_setup();
	for (uint64_t n = from + first * step; n < cases; n += step) {
		if (budget > 0 && done > 0 &&
		    (double) (vt_now_us() - start) > budget * 1e6) {
			break;
		}
		vt_case_no = n;
		if (prog) {
			prog[0] = n;
			prog[1] = done + 1;
		}
		vt_log_reset();
		vt_alloc_reset();
		vt_r.s = vt_mix(vt_mix(vt_seed) + vt_mix(n * 2 + 1) + vt_mix(salt << 32));
		vt_case(n);
		done++;
	}
	write_stats(stats, done);
	/* no atexit work: the verdict is in */
	fflush(NULL);
	_exit(0);
}
