/* U01: sc_str operation histories against plain byte arrays.
 * U02 (TOKEN): tokenising against a reference split. */
#include "vt.h"
#include "sc_str.h"

#ifndef MAXLEN
#define MAXLEN 0xfffffff0ull
#endif

static char *exact(const void *s, size_t n)
{
	char *p = vt_malloc(n + 1);
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}

#ifdef GIANT
/* texts past the widths of a signed and an unsigned 32-bit length */
#include <sys/mman.h>
#define TILE (1u << 25)
static unsigned char *tiles;
static const size_t span = (1ull << 32) + 4 * TILE;
/* a readable text of 4 GiB that takes 32 MiB: the same pages again and again */
void vt_setup(void)
{
	int fd = memfd_create("tile", MFD_CLOEXEC);
	unsigned char *t;
	if (fd < 0 || ftruncate(fd, TILE) != 0) {
		vt_die("memfd");
	}
	t = mmap(NULL, TILE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	for (size_t i = 0; i < TILE; i++) {
		t[i] = (unsigned char) ('a' + (i * 7 + i / 251) % 23);
	}
	munmap(t, TILE);
	tiles = mmap(NULL, span + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (size_t o = 0; o < span; o += TILE) {
		if (mmap(tiles + o, TILE, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) {
			vt_die("map");
		}
	}
	close(fd);
	vt_alloc_limit = 1ull << 40;
}
/* a text of n bytes that ends where the mapping does */
static const char *giant_text(size_t n) { return (const char *) tiles + span - n; }
static bool is_giant(const char *s, size_t n) { return sc_str_len(s) == (int64_t) n && memcmp(s, giant_text(n), n) == 0 && s[n] == 0; }

void vt_case(uint64_t cn)
{
	static const size_t around[] = {1ull << 24, 1ull << 31, 1ull << 32};
	int w = cn % 4 == 3 ? 1 : (int) (cn % 4);
	size_t n = around[w] + (w == 2 ? vt_below(3980) - 4000 : cn % 4 == 3 ? 4 + vt_below(5000) : vt_below(5000) - 5010), max = MAXLEN + 6;
	char *s, *d;
	vt_alloc_limit = 1ull << 40;
	vt_log("a text of %zu bytes", n);
	/* the largest length is somewhere in the last bytes below 2^32 */
	if (w == 2) {
		VT_CHECK(sc_str_create(giant_text((1ull << 32) + vt_below(4000))) == NULL, "a text longer than a length can hold is accepted");
	}
	s = sc_str_create(giant_text(n));
	VT_CHECK(s && is_giant(s, n), "create of %zu bytes", n);
	vt_class(w == 0 ? "past-2-to-24" : w == 1 ? "past-2-to-31" : "up-to-2-to-32");
	vt_event(1);
	if (w == 2) { /* what does not fit is refused and nothing changes; what does is appended */
		size_t over = max - n + 1 + vt_below(2000), fit = (size_t) MAXLEN - 20 - n;
		char *x = vt_malloc(over + 1);
		memset(x, 'x', over);
		x[over] = 0;
		VT_CHECK(!sc_str_append(&s, x), "%zu bytes appended to %zu", over, n);
		VT_CHECK(sc_str_len(s) == (int64_t) n && s[n] == 0 && s[n - 1] == (char) tiles[span - 1], "a refused append changes the text");
		VT_CHECK(!sc_str_replace(&s, "x", "y") || sc_str_len(s) == (int64_t) n, "a replacement without an occurrence changes the length");
		x[fit] = 0;
		VT_CHECK(sc_str_append(&s, x) && sc_str_len(s) == (int64_t) (n + fit), "%zu bytes cannot be appended to %zu", fit, n);
		VT_CHECK(memcmp(s, giant_text(n), n) == 0 && memcmp(s + n, x, fit + 1) == 0, "append to %zu bytes", n);
		vt_free(x);
		vt_event(4);
	} else {
		char *t;
		d = sc_str_dup(s);
		VT_CHECK(d && d != s && sc_str_cmp(d, s), "dup of %zu bytes", n);
		d[n - 1] ^= 1;
		VT_CHECK(!sc_str_cmp(d, s), "texts that differ in their last byte compare equal");
		sc_str_destroy(&d);
		VT_CHECK(sc_str_append(&s, "Tail") && sc_str_len(s) == (int64_t) n + 4 && memcmp(s + n, "Tail", 5) == 0 && memcmp(s, giant_text(n), n) == 0,
			 "append to %zu bytes", n);
		/* a replacement at the far end, of a new length */
		VT_CHECK(sc_str_replace(&s, "Tail", vt_chance(1, 2) ? "T" : "Tailor!") && sc_str_len(s) != (int64_t) n + 4 && s[n] == 'T' && memcmp(s, giant_text(n), n) == 0,
			 "replacement behind %zu bytes", n);
		VT_CHECK(s[sc_str_len(s)] == 0 && strlen(s + n) == (size_t) sc_str_len(s) - n, "replacement behind %zu bytes: length", n);
		VT_CHECK(sc_str_trim(&s, "Tailor!") , "trim");
		/* the last letters of the text may be among those trimmed */
		size_t left = n, head = 0;
		while (left && strchr("Tailor!", giant_text(n)[left - 1])) {
			left--;
		}
		while (head < left && strchr("Tailor!", giant_text(n)[head])) {
			head++;
		}
		VT_CHECK(sc_str_len(s) == (int64_t) (left - head) && memcmp(s, giant_text(n) + head, left - head) == 0 && s[left - head] == 0, "trim of %zu bytes", n);
		n = left - head;
		uint32_t a = (uint32_t) (n - 3000 + vt_below(2000)), b = a + (uint32_t) vt_below(900);
		t = sc_str_create_len(s + a, b - a);
		VT_CHECK(sc_str_substring(&s, a, b) && t && sc_str_cmp(s, t), "substring from %u to %u", a, b);
		sc_str_destroy(&t);
		sc_str_destroy(&s);
		s = sc_str_create("start");
		VT_CHECK(sc_str_append(&s, giant_text(n)) && sc_str_len(s) == (int64_t) n + 5 && memcmp(s, "start", 5) == 0 && memcmp(s + 5, giant_text(n), n) == 0 && s[n + 5] == 0,
			 "%zu bytes appended", n);
		vt_event(7);
	}
	sc_str_destroy(&s);
	VT_CHECK(vt_live == 0, "%ld blocks left", vt_live);
	vt_state(vt_hash(cn, n));
	if (vt_want_sample()) {
		vt_sample("a text of about %zu bytes created, extended, %s", around[w], w == 2 ? "and not extended past the greatest length" : "replaced, trimmed and cut");
	}
}
#elif !defined(TOKEN)
#define NS 4
static char *S[NS];
static unsigned char *M[NS];
static size_t L[NS];
static uint64_t h;
static int style;
static int n_refused, n_long, n_zero, n_grown, n_shrunk, n_same, n_range;

static bool vast;
static size_t max_n(void) { if (vast) { return 200000; } return MAXLEN < 3000 ? MAXLEN : 3000; }

static char *text(size_t n)
{
	static const char *al[] = {"ab", "abc ", "xyzXYZ019 ,;-", "aaab"};
	char *p = vt_malloc(n + 1);
	for (size_t i = 0; i < n; i++) {
		p[i] = style == 4 ? (char) (1 + vt_below(255)) : al[style][vt_below(strlen(al[style]))];
	}
	p[n] = 0;
	return p;
}
static size_t len_pick(void)
{
	size_t n;
	if (vast && vt_chance(1, 2)) {
		vt_class("past-65536");
		return (vt_chance(1, 4) ? 131072 : 65536) + vt_below(24) - 12;
	}
	switch (vt_below(8)) {
	case 0: n = 0; break;
	case 1: case 2: case 3: n = vt_below(6); break;
	case 4: n = 1015 + vt_below(20); break; /* around the formatting buffer */
	case 5: n = vt_size(3000); break;
	default: n = vt_below(40); break;
	}
	return n > max_n() ? vt_below(max_n()) : n;
}
static void set_model(int i, const void *p, size_t n)
{
	unsigned char *m = vt_malloc(n + 1);
	memcpy(m, p, n);
	m[n] = 0;
	vt_free(M[i]);
	M[i] = m;
	L[i] = n;
}
static void check_all(const char *op)
{
	long live = 0;
	for (int i = 0; i < NS; i++) {
		if (!M[i]) {
			VT_CHECK(S[i] == NULL, "%s: string %d should be absent", op, i);
			VT_CHECK(sc_str_len(S[i]) == -1, "%s: length of an absent string", op);
			continue;
		}
		live++;
		VT_CHECK(S[i] != NULL, "%s: string %d is gone", op, i);
		VT_CHECK(sc_str_len(S[i]) == (int64_t) L[i], "%s: string %d has length %" PRId64 ", its text has %zu", op, i, sc_str_len(S[i]), L[i]);
		if (memcmp(S[i], M[i], L[i] + 1) != 0) {
			vt_fail("%s: string %d is %s, expected %s", op, i, vt_quote(S[i], L[i] > 200 ? 200 : L[i]), vt_quote(M[i], L[i] > 200 ? 200 : L[i]));
		}
	}
	VT_CHECK(vt_live == live, "%s: %ld blocks for %ld strings", op, vt_live, live);
}
static void drop(int i)
{
	sc_str_destroy(&S[i]);
	VT_CHECK(S[i] == NULL, "destroy left the pointer");
	vt_free(M[i]);
	M[i] = NULL;
	L[i] = 0;
}
static bool has_zero(int i) { return M[i] && strlen((char *) M[i]) != L[i]; }

static char *va(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	char *s = sc_str_create_va(fmt, ap);
	/* the list must still be usable by the caller's own copy rules */
	va_end(ap);
	return s;
}

void vt_case(uint64_t cn)
{
	int ops = (int) vt_range(1, 60);
	unsigned fail_rate = vt_chance(1, 2) ? 0 : 1;
	vast = MAXLEN > 3000 && cn % 2000 == 77;
	if (vast) {
		ops = (int) vt_range(4, 16);
		fail_rate = 0;
	}
	h = 1;
	style = (int) vt_below(5);
	n_refused = n_long = n_zero = n_grown = n_shrunk = n_same = n_range = 0;
	for (int i = 0; i < NS; i++) {
		S[i] = NULL;
		M[i] = NULL;
		L[i] = 0;
	}
	while (ops-- > 0) {
		int i = (int) vt_below(NS), j = (int) vt_below(NS), k = (int) vt_below(14);
		size_t n = len_pick();
		char *t = text(n), *r = NULL;
		bool ok = false, done = false;
		uint64_t f0 = vt_alloc_failed;
		const char *name = "";

		if (fail_rate && vt_chance(1, 8)) {
			vt_fail_nth((long) vt_range(1, 2), vt_chance(1, 2));
		}
		h = vt_hash(h, (uint64_t) k * 5000 + n);
		switch (k) {
		case 0: /* create */
			if (S[i]) {
				drop(i);
			}
			name = "create";
			if (MAXLEN < 3000 && vt_chance(1, 3)) {
				char *big = text(MAXLEN + 1 + vt_below(3));
				S[i] = sc_str_create(big);
				vt_free(big);
				VT_CHECK(S[i] == NULL, "text above the limit accepted");
				break;
			}
			S[i] = sc_str_create(vt_chance(1, 20) ? (vt_free(t), t = NULL) : t);
			VT_CHECK(t || S[i] == NULL, "create(NULL)");
			VT_CHECK(!t || !S[i] == (vt_alloc_failed != f0), "create refused=%d", !S[i]);
			if (S[i]) {
				set_model(i, t, n);
			} else {
				n_refused++;
			}
			vt_log("%d = create(%s)", i, t ? vt_quote(t, n > 60 ? 60 : n) : "NULL");
			break;
		case 1: /* create_len, zero bytes inside */
			if (S[i]) {
				drop(i);
			}
			name = "create_len";
			for (int z = (int) vt_below(4); z > 0 && n; z--) {
				t[vt_below(n)] = 0;
				n_zero++;
			}
			{
				char *e = vt_malloc(n ? n : 1); /* no terminator behind it */
				memcpy(e, t, n);
				S[i] = sc_str_create_len(e, (uint32_t) n);
				vt_free(e);
			}
			VT_CHECK(sc_str_create_len(NULL, 5) == NULL, "create_len(NULL)");
			VT_CHECK(!S[i] == (vt_alloc_failed != f0), "create_len refused=%d", !S[i]);
			if (S[i]) {
				set_model(i, t, n);
			} else {
				n_refused++;
			}
			vt_log("%d = create_len(%zu)", i, n);
			break;
		case 2: case 3: /* formatted */ {
			int v = (int) vt_range(-1000, 1000), form = (int) vt_below(4);
			size_t sz = n + 100;
			char *w = vt_malloc(sz);
			if (n + 20 > MAXLEN) {
				n = 10;
				t[10] = 0;
			}
			if (S[i] && k == 2) {
				drop(i);
			}
			name = k == 2 ? "create_fmt" : "set_fmt";
			if (form == 0) {
				snprintf(w, sz, "%s", t);
			} else if (form == 1) {
				snprintf(w, sz, "%d:%s", v, t);
			} else if (form == 2) {
				snprintf(w, sz, "%s%c%5d", t, 'c', v);
			} else {
				snprintf(w, sz, "%.*s%%", (int) n / 2, t);
			}
#define FMT(f, ...) (form == 0 ? f(__VA_ARGS__ "%s", t) : form == 1 ? f(__VA_ARGS__ "%d:%s", v, t) : form == 2 ? f(__VA_ARGS__ "%s%c%5d", t, 'c', v) : f(__VA_ARGS__ "%.*s%%", (int) n / 2, t))
			if (k == 2) {
				if (vt_chance(1, 2)) {
					S[i] = FMT(sc_str_create_fmt, );
				} else {
					S[i] = FMT(va, );
				}
				ok = S[i] != NULL;
			} else {
				bool (*sf)(char **, const char *, ...) = sc_str_set_fmt;
				ok = form == 0 ? sf(&S[i], "%s", t) : form == 1 ? sf(&S[i], "%d:%s", v, t) : form == 2 ? sf(&S[i], "%s%c%5d", t, 'c', v) : sf(&S[i], "%.*s%%", (int) n / 2, t);
			}
			VT_CHECK(ok == (vt_alloc_failed == f0), "%s says %d", name, ok);
			if (ok) {
				n_long += strlen(w) >= 1024;
				set_model(i, w, strlen(w));
			} else {
				n_refused++;
			}
			vt_log("%d: %s(%s)", i, name, vt_quote(w, strlen(w) > 60 ? 60 : strlen(w)));
			vt_free(w);
			break;
		}
		case 4: /* dup */
			if (i == j) {
				break;
			}
			if (S[i]) {
				drop(i);
			}
			name = "dup";
			S[i] = sc_str_dup(S[j]);
			vt_log("%d = dup(%d)", i, j);
			VT_CHECK(!S[i] == (!S[j] || vt_alloc_failed != f0), "dup says %d", S[i] != NULL);
			if (S[i]) {
				VT_CHECK(S[i] != S[j], "dup returned the same string");
				set_model(i, M[j], L[j]);
			} else {
				n_refused++;
			}
			break;
		case 5: { /* set, also from itself */
			const char *p = t;
			name = "set";
			if (S[i] && vt_chance(1, 4)) {
				p = S[i] + vt_below(L[i] + 1);
				vt_class("set-from-itself");
			} else if (vt_chance(1, 20)) {
				p = NULL;
			}
			char *keep = p ? exact(p, strlen(p)) : NULL;
			ok = sc_str_set(&S[i], p);
			vt_log("%d: set -> %d", i, ok);
			VT_CHECK(ok == (p && vt_alloc_failed == f0), "set says %d", ok);
			if (ok) {
				set_model(i, keep, strlen(keep));
			} else {
				n_refused++;
			}
			vt_free(keep);
			break;
		}
		case 6: { /* append, also of (a part of) the string itself */
			const char *p = t;
			size_t pl = n;
			char *keep = NULL;
			name = "append";
			if (S[i] && vt_chance(1, 4)) {
				p = S[i] + (vt_chance(1, 2) ? 0 : vt_below(L[i] + 1));
				pl = strlen(p);
				vt_class("append-of-itself");
			}
			keep = exact(p, pl);
			bool fits = (M[i] ? L[i] : 0) + pl <= MAXLEN;
			ok = sc_str_append(&S[i], p);
			vt_log("%d: append(%s) -> %d", i, vt_quote(keep, pl > 60 ? 60 : pl), ok);
			VT_CHECK(ok == (vt_alloc_failed == f0 && fits), "append says %d", ok);
			if (ok) {
				unsigned char *w = vt_malloc(L[i] + pl + 1);
				if (M[i]) {
					memcpy(w, M[i], L[i]);
				}
				memcpy(w + L[i], keep, pl + 1);
				set_model(i, w, L[i] + pl);
				vt_free(w);
			} else {
				n_refused++;
			}
			vt_free(keep);
			break;
		}
		case 7: { /* append_fmt */
			char *w;
			int v = (int) vt_range(0, 99999);
			name = "append_fmt";
			if (has_zero(i) || L[i] + n + 8 > MAXLEN) {
				break;
			}
			w = vt_malloc(L[i] + n + 20);
			sprintf(w, "%s%d%s", M[i] ? (char *) M[i] : "", v, t);
			ok = sc_str_append_fmt(&S[i], "%d%s", v, t);
			vt_log("%d: append_fmt -> %d", i, ok);
			VT_CHECK(ok == (vt_alloc_failed == f0), "append_fmt says %d", ok);
			if (ok) {
				n_long += strlen(w) >= 1024;
				set_model(i, w, strlen(w));
			} else {
				n_refused++;
			}
			vt_free(w);
			break;
		}
		case 8: case 9: { /* trim */
			char list[8];
			size_t a = 0, e = L[i], ln = vt_below(5);
			name = "trim";
			if (has_zero(i)) {
				break;
			}
			for (size_t z = 0; z < ln; z++) {
				list[z] = M[i] && L[i] && vt_chance(1, 2) ? (char) M[i][vt_chance(1, 2) ? 0 : L[i] - 1] : "ab c"[vt_below(4)];
			}
			list[ln] = 0;
			while (a < e && strchr(list, M[i][a])) {
				a++;
			}
			while (e > a && strchr(list, M[i][e - 1])) {
				e--;
			}
			char *x = exact(list, ln);
			ok = sc_str_trim(&S[i], x);
			vt_free(x);
			vt_log("%d: trim(%s) -> %d", i, vt_quote(list, ln), ok);
			VT_CHECK(ok == (vt_alloc_failed == f0), "trim says %d", ok);
			if (ok && M[i]) {
				unsigned char *w = vt_malloc(e - a + 1);
				memcpy(w, M[i] + a, e - a);
				n_shrunk += e - a < L[i];
				set_model(i, w, e - a);
				vt_free(w);
			} else if (!ok) {
				n_refused++;
			}
			break;
		}
		case 10: { /* substring */
			uint32_t a = (uint32_t) vt_below(L[i] + 2), e = (uint32_t) vt_below(L[i] + 2);
			name = "substring";
			if (vt_chance(1, 2) && a > e) {
				uint32_t q = a;
				a = e;
				e = q;
			}
			if (vt_chance(1, 12)) {
				a = (uint32_t) vt_edge64();
			}
			if (vt_chance(1, 12)) {
				e = (uint32_t) vt_edge64();
			}
			bool in = M[i] && a <= e && e <= L[i];
			ok = sc_str_substring(&S[i], a, e);
			vt_log("%d: substring(%u, %u) of %zu -> %d", i, a, e, L[i], ok);
			VT_CHECK(ok == (in && vt_alloc_failed == f0), "substring(%u,%u) of %zu says %d", a, e, L[i], ok);
			n_range += !in;
			if (ok) {
				unsigned char *w = vt_malloc(e - a + 1);
				memcpy(w, M[i] + a, e - a);
				set_model(i, w, e - a);
				vt_free(w);
			} else {
				n_refused++;
			}
			break;
		}
		case 11: case 12: { /* replace */
			char *with, *w;
			size_t rl = vt_chance(1, 15) ? 0 : 1 + vt_below(4), wl = vt_chance(1, 3) ? rl : vt_chance(1, 10) ? vt_below(200) : vt_below(8), wn = 0, cnt = 0;
			name = "replace";
			if (!vast && L[i] * (wl + 1) > 400000) {
				break; /* texts multiply from one replacement to the next */
			}
			vt_free(t);
			if (M[i] && L[i] >= rl && vt_chance(1, 2)) {
				t = exact(M[i] + vt_below(L[i] - rl + 1), rl);
			} else {
				t = text(rl);
			}
			rl = strlen(t);
			with = text(wl);
			w = vt_malloc(L[i] * (wl + 1) + wl + 2);
			/* in a byte string, occurrences may be looked for up to its first zero byte only */
			size_t reach = L[i];
			if (has_zero(i)) {
				reach = strlen((char *) M[i]);
				vt_class("replace-in-bytes");
			}
			for (size_t p = 0; p < L[i];) {
				if (rl && p + rl <= reach && memcmp(M[i] + p, t, rl) == 0) {
					memcpy(w + wn, with, wl);
					wn += wl;
					p += rl;
					cnt++;
				} else {
					w[wn++] = (char) M[i][p++];
				}
			}
			w[wn] = 0;
			if ((double) cnt * (double) L[i] > 4e8) { /* the sanitizer measures the rest at every search */
				vt_free(w);
				vt_free(with);
				break;
			}
			ok = sc_str_replace(&S[i], t, with);
			vt_log("%d: replace(%s, %s) %zu hits -> %d", i, vt_quote(t, rl), vt_quote(with, wl > 30 ? 30 : wl), cnt, ok);
			VT_CHECK(ok == (vt_alloc_failed == f0 && wn <= MAXLEN), "replace says %d", ok);
			if (ok && M[i]) {
				if (cnt) {
					n_grown += wl > rl;
					n_shrunk += wl < rl;
					n_same += wl == rl;
				}
				if (reach < L[i] && rl && !(sc_str_len(S[i]) == (int64_t) wn && memcmp(S[i], w, wn) == 0)) {
					/* or everywhere */
					size_t un = 0;
					vt_free(w);
					w = vt_malloc(L[i] * (wl + 1) + wl + 2);
					for (size_t p = 0; p < L[i];) {
						if (p + rl <= L[i] && memcmp(M[i] + p, t, rl) == 0) {
							memcpy(w + un, with, wl);
							un += wl;
							p += rl;
						} else {
							w[un++] = (char) M[i][p++];
						}
					}
					wn = un;
				}
				set_model(i, w, wn);
			} else if (!ok) {
				n_refused++;
			}
			if (cnt > 1) {
				vt_class("several-replaced");
			}
			if (!rl) {
				vt_class("replace-empty");
			}
			vt_free(w);
			vt_free(with);
			break;
		}
		default: /* compare, destroy */
			name = "compare/destroy";
			if (S[i] && S[j]) {
				bool eq = L[i] == L[j] && memcmp(M[i], M[j], L[i]) == 0;
				VT_CHECK(sc_str_cmp(S[i], S[j]) == eq, "compare of %zu and %zu bytes says %d", L[i], L[j], !eq);
				if (S[i] && L[i] && i != j) { /* differ in one byte, at the end, in length */
					char *x = sc_str_create_len(S[i], (uint32_t) L[i]), *y = sc_str_create_len(S[i], (uint32_t) L[i] - 1);
					if (x) {
						VT_CHECK(sc_str_cmp(S[i], x), "equal strings compare different");
						size_t at = vt_chance(1, 2) ? L[i] - 1 : vt_below(L[i]);
						x[at] ^= 1;
						VT_CHECK(!sc_str_cmp(S[i], x), "strings differing at byte %zu of %zu compare equal", at, L[i]);
					}
					if (y) {
						VT_CHECK(!sc_str_cmp(S[i], y) && !sc_str_cmp(y, S[i]), "a string equals its prefix");
					}
					sc_str_destroy(&x);
					sc_str_destroy(&y);
				}
			}
			if (vt_chance(1, 4)) {
				drop(i);
				sc_str_destroy(&S[i]);
				sc_str_destroy(NULL);
				vt_log("destroy(%d)", i);
			}
			break;
		}
		(void) done;
		(void) r;
		vt_fail_off();
		vt_free(t);
		check_all(name);
	}
	for (int i = 0; i < NS; i++) {
		drop(i);
	}
	check_all("end");
	if (n_refused) {
		vt_class("refused");
	}
	if (n_long) {
		vt_class("long-format");
	}
	if (n_zero) {
		vt_class("zero-bytes");
	}
	if (n_grown) {
		vt_class("replace-grows");
	}
	if (n_shrunk) {
		vt_class("replace-shrinks");
	}
	if (n_same) {
		vt_class("replace-in-place");
	}
	if (n_range) {
		vt_class("bad-range");
	}
	vt_state(h);
	if (vt_want_sample() && n_refused && n_grown) {
		vt_sample("four strings, alphabet %d: %d refused operations, %d long formats, %d growing, %d shrinking and %d in-place replacements, %d bad ranges", style, n_refused, n_long, n_grown, n_shrunk, n_same, n_range);
	}
}
#else
void vt_case(uint64_t cn)
{
	size_t n = vt_chance(1, 20) ? vt_size(2000) : vt_below(20);
	unsigned al = (unsigned) vt_range(2, 6);
	static const char letters[] = "a;-,b ";
	char *t = vt_malloc(n + 1), *s, *save;
	uint64_t h = n;
	int changed = 0, stops = 0, empties = 0;
	bool vast = cn % 10000 == 77, sparse = cn % 10000 == 78;
	if (vast || sparse) {
		vt_free(t);
		n = 65536 + vt_below(70000);
		t = vt_malloc(n + 1);
		vt_class(vast ? "many-tokens" : "past-65536");
	}
	for (size_t i = 0; i < n; i++) {
		t[i] = vt_chance(1, 30) ? (char) (1 + vt_below(255)) : letters[vt_below(al)];
		if (sparse && vt_below(40000)) {
			t[i] = (char) ('p' + i % 7);
		}
	}
	t[n] = 0;
	s = vt_chance(1, 2) ? sc_str_create(t) : sc_str_create_len(t, (uint32_t) n);
	VT_CHECK(s, "create");
	vt_log("string %s", vt_quote(t, n > 3000 ? 3000 : n));
	h = vt_hash_bytes(h, t, n);
	for (int pass = (int) vt_range(1, 4); pass > 0; pass--) {
		size_t at = 0;
		bool over = false, vary = vt_chance(1, 3);
		long stop = vt_chance(1, 2) || vast ? -1 : (long) vt_below(8);
		char delim[8];
		const char *tok;
		save = NULL;
		for (int z = 0;; z++) {
			if (z == 0 || (vary && vt_chance(1, vast ? 500 : 2))) {
				size_t dl = vt_below(4);
				for (size_t q = 0; q < dl; q++) {
					delim[q] = n && vt_chance(1, 3) ? t[vt_below(n)] : letters[vt_below(sizeof(letters) - 1)];
				}
				delim[dl] = 0;
				changed += z > 0;
				vt_log("delimiters %s", vt_quote(delim, dl));
			}
			if (z == stop) {
				break;
			}
			char *d = exact(delim, strlen(delim));
			tok = sc_str_token_begin(s, &save, d);
			vt_free(d);
			if (over) {
				VT_CHECK(tok == NULL, "a token after the last one: %s", vt_quote(tok, strlen(tok)));
				break;
			}
			size_t e = at + strcspn(t + at, delim);
			VT_CHECK(tok != NULL, "token %d is missing", z);
			vt_log("token %s", vt_quote(tok, strlen(tok) > 3000 ? 3000 : strlen(tok)));
			VT_CHECK(strlen(tok) == e - at && memcmp(tok, t + at, e - at) == 0, "token %d is %s, expected %s", z, vt_quote(tok, strlen(tok)), vt_quote(t + at, e - at));
			VT_CHECK(sc_str_len(s) == (int64_t) n, "length changed while tokenising");
			empties += e == at;
			over = e == n;
			at = e + 1;
			h = vt_hash(h, e * 2 + over);
		}
		bool ended = stop < 0 || over;
		if (!ended || vt_chance(1, 2)) {
			sc_str_token_end(s, &save);
			stops += !ended;
			vt_log("end (%s)", ended ? "complete" : "abandoned");
			if (vt_chance(1, 4)) {
				sc_str_token_end(s, &save);
			}
		} else if (stop >= 0) {
			sc_str_token_end(s, &save);
		}
		VT_CHECK(memcmp(s, t, n + 1) == 0, "the string is %s after tokenising, it was %s", vt_quote(s, n), vt_quote(t, n));
		VT_CHECK(sc_str_len(s) == (int64_t) n, "length changed by tokenising");
	}
	save = NULL;
	VT_CHECK(sc_str_token_begin(NULL, &save, ";") == NULL, "token of an absent string");
	sc_str_token_end(NULL, &save);
	sc_str_destroy(&s);
	VT_CHECK(vt_live == 0, "%ld blocks left", vt_live);
	if (stops) {
		vt_class("abandoned");
	}
	if (changed) {
		vt_class("delimiters-changed");
	}
	if (empties) {
		vt_class("empty-token");
	}
	if (n == 0) {
		vt_class("empty-string");
	}
	vt_state(h);
	if (vt_want_sample() && n > 5 && n < 40) {
		vt_sample("%s: %d abandoned passes, %d changes of the delimiters, %d empty tokens", vt_quote(t, n), stops, changed, empties);
	}
	vt_free(t);
}
#endif
