/* S01 (MODE 1), S02 (MODE 2), S03 (MODE 3): the helpers of sc.c against
 * 128-bit and bit by bit references. */
#include "vt.h"
#include "sc.h"
#include <ctype.h>

typedef unsigned __int128 u128;

#if MODE == 1
static const char units[] = "kmgtpe";
/* 1: value, 0: must be refused, 2: not specified */
static int expect_bytes(const char *s, int64_t *v)
{
	u128 x = 0;
	bool neg = false, plus = false, open = false;
	size_t n;
	while (*s == ' ' || (*s >= 9 && *s <= 13)) {
		s++;
		open = true; /* leading blanks: not said */
	}
	if (*s == '+' || *s == '-') {
		neg = *s == '-';
		plus = !neg;
		s++;
	}
	if (*s < '0' || *s > '9') {
		return 0;
	}
	for (; *s >= '0' && *s <= '9'; s++) {
		x = x > ((u128) 1 << 100) ? x : x * 10 + (u128) (*s - '0');
	}
	n = strlen(s);
	if (n > 2 && s[0] == ' ') {
		/* "1 KB" is shown in the header; blanks before the unit are left open */
		while (*s == ' ') {
			s++;
		}
		n = strlen(s);
		open = true;
	}
	if (n > 0) {
		const char *u = strchr(units, tolower((unsigned char) s[0]));
		if (n > 2 || (n == 2 && s[1] != 'b' && s[1] != 'B')) {
			return 0;
		}
		if (s[0] == 'b' || s[0] == 'B') {
			open |= n == 2; /* "bb" */
		} else if (u == NULL) {
			return 0;
		} else {
			x = x > ((u128) 1 << 66) ? x : x << (10 * (unsigned) (u - units + 1));
		}
	}
	if (x > (u128) INT64_MAX) {
		return 0;
	}
	if (neg) {
		return x == 0 ? 2 : 0;
	}
	*v = (int64_t) x;
	return open || plus ? 2 : 1;
}

static void parse_one(const char *text)
{
	size_t n = strlen(text);
	char *p = vt_malloc(n + 1);
	int64_t want = -1, got;
	int e;
	memcpy(p, text, n + 1);
	e = expect_bytes(p, &want);
	errno = (int) vt_below(2) * ERANGE;
	got = sc_size_to_bytes(p);
	vt_log("size_to_bytes(%s) -> %" PRId64, vt_quote(p, n), got);
	VT_CHECK(memcmp(p, text, n + 1) == 0, "the text was changed");
	if (e == 1) {
		VT_CHECK(got == want, "%s is %" PRId64 " bytes, expected %" PRId64, vt_quote(text, n), got, want);
		vt_class(n && isdigit((unsigned char) text[n - 1]) ? "plain" : "with-unit");
		if (want > INT64_MAX / 2) {
			vt_class("near-limit");
		}
	} else if (e == 0) {
		VT_CHECK(got == -1, "%s gives %" PRId64 ", expected an error", vt_quote(text, n), got);
		vt_class(text[0] == '-' ? "negative" : isdigit((unsigned char) text[0]) ? "refused-number" : "refused-text");
	} else {
		VT_CHECK(got == -1 || got == want || (want == -1 && got == 0), "%s gives %" PRId64, vt_quote(text, n), got);
	}
	vt_state(vt_hash_bytes(1, text, n));
	if (vt_want_sample() && e == 1) {
		vt_sample("\"%s\" -> %" PRId64, text, got);
	}
	vt_free(p);
}

static void format_one(uint64_t v)
{
	static const char *name[] = {"B", "KB", "MB", "GB", "TB", "PB", "EB"};
	char ref[64], *b, *r, *end;
	size_t need, cap;
	long double num, unit = 1;
	int u = 0;
	b = vt_malloc(64);
	memset(b, 0x55, 64);
	r = sc_bytes_to_size(b, 64, v);
	VT_CHECK(r == b, "%" PRIu64 " bytes are not formatted", v);
	need = strlen(b);
	vt_log("bytes_to_size(%" PRIu64 ") -> %s", v, b);
	for (size_t i = need + 1; i < 64; i++) {
		VT_CHECK(b[i] == 0x55, "written behind the text");
	}
	memcpy(ref, b, need + 1);
	num = strtold(b, &end);
	VT_CHECK(end != b && isdigit((unsigned char) b[0]), "%" PRIu64 " bytes are shown as %s", v, ref);
	while (*end == ' ') {
		end++;
	}
	for (u = 0; u < 7 && strcmp(end, name[u]) != 0; u++) {
		unit *= 1024;
	}
	VT_CHECK(u < 7, "%" PRIu64 " bytes are shown as %s: no such unit", v, ref);
	if (u == 0) {
		VT_CHECK(v < 1024 && num == (long double) v, "%" PRIu64 " bytes are shown as %s", v, ref);
	} else {
		long double d = num * unit - (long double) v;
		VT_CHECK(v >= 1024 && num >= 1 && num < 1024, "%" PRIu64 " bytes are shown as %s", v, ref);
		VT_CHECK(d <= unit / 100 && -d <= unit / 100, "%" PRIu64 " bytes are shown as %s, which is more than a hundredth off", v, ref);
	}
	vt_class(name[u]);
	vt_free(b);
	/* every smaller buffer */
	cap = vt_below(need + 3);
	b = vt_malloc(cap + (cap == 0));
	r = sc_bytes_to_size(b, cap, v);
	if (cap <= need) {
		VT_CHECK(r == NULL, "%s does not fit %zu bytes and is not reported", ref, cap);
		vt_class("does-not-fit");
	} else {
		VT_CHECK(r == b && strcmp(b, ref) == 0, "%s is not written to a buffer of %zu", ref, cap);
		vt_class("fits-exactly");
	}
	vt_free(b);
	vt_state(vt_hash(2, v));
	if (vt_want_sample() && v > 5000) {
		vt_sample("%" PRIu64 " bytes -> \"%s\"", v, ref);
	}
}

#ifdef GIANT
static void giant(uint64_t cn)
{
	uint64_t k = cn % 2 ? 1ull << 31 : 1ull << 32, n = k + cn / 2 % 3;
	vt_alloc_limit = 1ull << 40;
	char *t = malloc(n + 40), *e;
	if (t == NULL) {
		vt_die("no memory");
	}
	memset(t, 'x', n + 39);
	e = t + sprintf(t, "%d", (int) vt_range(1, 3000));
	*e = "kmgtpex"[cn % 7];
	e[1] = 'b';
	e[n] = 0;
	int64_t got = sc_size_to_bytes(t);
	vt_log("a number followed by %" PRIu64 " bytes -> %" PRId64, n, got);
	VT_CHECK(got == -1, "a number followed by %" PRIu64 " bytes of other text gives %" PRId64, n, got);
	vt_class(cn % 2 ? "past-2-to-31" : "past-2-to-32");
	vt_state(vt_hash(n, 3));
	free(t);
}
#endif

/* what follows or precedes the number is longer than a narrow length counts */
static void long_text(void)
{
	size_t k = vt_chance(1, 2) ? 256 * (size_t) vt_range(1, 40) : vt_chance(1, 2) ? 65536 : 32768 * (size_t) vt_range(1, 5);
	size_t n = k + (size_t) vt_range(-1, 3), at = 0;
	char *t = malloc(n + 40);
	bool lead = vt_chance(1, 3); /* leading zeros belong to the number */
	if (lead) {
		memset(t, '0', n);
		at = n;
	}
	at += (size_t) sprintf(t + at, "%" PRIu64, vt_below(3000) + 1);
	if (lead) {
		sprintf(t + at, "%s", vt_chance(1, 3) ? "" : vt_chance(1, 2) ? "k" : "MB");
		vt_class("long-number");
	} else {
		t[at] = units[vt_below(6)];
		t[at + 1] = 'b';
		for (size_t i = at + (size_t) vt_below(3); i < at + n; i++) {
			t[i] = "bkmg x0"[vt_below(7)];
		}
		t[at + n] = 0;
		vt_class("long-suffix");
	}
	parse_one(t);
	free(t);
}

void vt_case(uint64_t cn)
{
	char t[80];
#ifdef GIANT
	giant(cn);
	return;
#endif
	if (vt_chance(1, 30)) {
		long_text();
	}
	for (int k = 0; k < 20; k++) {
		uint64_t v = vt_edge64();
		char u = units[vt_below(6)];
		if (vt_chance(1, 3)) { /* around the largest multiple of the unit */
			v = ((uint64_t) INT64_MAX >> (10 * (unsigned) (strchr(units, u) - units + 1))) + (uint64_t) vt_range(-2, 3);
		}
		switch (vt_below(11)) {
		case 0: snprintf(t, sizeof(t), "%" PRIu64, v); break;
		case 1: snprintf(t, sizeof(t), "%" PRIu64 "%c", v, u); break;
		case 2: snprintf(t, sizeof(t), "%" PRIu64 "%c%c", v, vt_chance(1, 2) ? toupper(u) : u, "bB"[vt_below(2)]); break;
		case 3: snprintf(t, sizeof(t), "%" PRIu64 "%c", vt_below(5000), toupper(u)); break;
		case 4: snprintf(t, sizeof(t), "%" PRId64 "%c", (int64_t) v, vt_chance(1, 2) ? 0 : u); break;
		case 5: snprintf(t, sizeof(t), "-%" PRIu64 "%s", vt_chance(1, 4) ? 9223372036854775808ull : v, vt_chance(1, 2) ? "b" : "kb"); break;
		case 6: snprintf(t, sizeof(t), "%" PRIu64 "%c%c", vt_below(3000), u, (char) vt_range(1, 255)); break;
		case 7: snprintf(t, sizeof(t), "%" PRIu64 "%cb%c", vt_below(3000), u, (char) vt_range(1, 255)); break;
		case 8: snprintf(t, sizeof(t), "%" PRIu64 "%s%" PRIu64, v, vt_chance(1, 3) ? "" : ".", vt_rnd()); break;
		case 9: snprintf(t, sizeof(t), "%s%" PRIu64 "%c", vt_chance(1, 2) ? "00" : vt_chance(1, 2) ? "+" : "0x", vt_below(3000), vt_chance(1, 3) ? (char) vt_range(1, 255) : u); break;
		default: {
			size_t n = vt_below(8);
			for (size_t i = 0; i < n; i++) {
				t[i] = vt_chance(1, 8) ? (char) vt_range(1, 255) : "0123456789kmgtpeb.- +KMx"[vt_below(24)];
			}
			t[n] = 0;
		}
		}
		parse_one(t);
	}
	for (int k = 0; k < 20; k++) {
		uint64_t v = vt_edge64();
		if (vt_chance(1, 3)) { /* near the change of unit */
			v = (1024ull << (10 * vt_below(6))) - (vt_chance(1, 2) ? vt_below(8) : vt_below(1 + (52ull << (10 * vt_below(6)))) % (1024ull << 49));
		} else if (vt_chance(1, 3)) {
			v = vt_rnd() >> vt_below(64);
		}
		format_one(v);
	}
	if (cn < 2100) {
		format_one(cn);
	}
}

#elif MODE == 2
void vt_case(uint64_t cn)
{
	(void) cn;
	for (int k = 0; k < 60; k++) {
		uint64_t v = vt_edge64(), r, w = 1;
		if (vt_chance(1, 2)) {
			v = (1ull << vt_below(64)) + (uint64_t) vt_range(-1, 1);
		}
		if (vt_chance(1, 4)) {
			v = 1ull << vt_below(64) | 1ull << vt_below(64);
		}
		int bits = 0;
		for (int b = 0; b < 64; b++) {
			bits += (int) (v >> b & 1);
		}
		bool is = sc_is_pow2(v);
		VT_CHECK(is == (bits == 1), "is_pow2(%" PRIu64 ") is %d", v, is);
		if (v <= 1ull << 63) {
			while (w < v) {
				w *= 2;
			}
			r = sc_to_pow2(v);
			VT_CHECK(r == w, "to_pow2(%" PRIu64 ") is %" PRIu64 ", expected %" PRIu64, v, r, w);
			vt_class(v == w ? "exact" : v == 0 ? "zero" : v > 1ull << 62 ? "to-top-bit" : "rounded-up");
		} else {
			vt_class("has-none");
		}
		/* selection, with operands whose order differs by type */
		uint64_t a = v, b = vt_chance(1, 6) ? v : vt_edge64();
		int64_t sa = (int64_t) a, sb = (int64_t) b;
		int32_t ia = (int32_t) a, ib = (int32_t) b;
		uint32_t ua = (uint32_t) a, ub = (uint32_t) b;
		int8_t ca = (int8_t) a, cb = (int8_t) b;
		uint16_t ha = (uint16_t) a;
#define SEL(x, y)                                                                                                                                                       \
	VT_CHECK(sc_max(x, y) == ((x) >= (y) ? (x) : (y)) && sc_min(x, y) == ((x) <= (y) ? (x) : (y)), "min/max of " #x " and " #y " with a=%" PRIx64 " b=%" PRIx64, a, b)
		SEL(a, b);
		SEL(sa, sb);
		SEL(ia, ib);
		SEL(ua, ub);
		SEL(ca, cb);
		SEL(sa, ib);
		SEL(ia, sb);
		SEL(ub, a);
		SEL(ha, sb);
		SEL(ca, ib);
		SEL((int64_t) ua, sb);
		/* the arguments may be any expression */
		VT_CHECK(sc_max(ia & 7, ib & 7) == ((ia & 7) > (ib & 7) ? (ia & 7) : (ib & 7)), "max of expressions");
		VT_CHECK(2 * sc_min(ia & 7, ib & 7) == 2 * ((ia & 7) < (ib & 7) ? (ia & 7) : (ib & 7)), "min inside an expression");
		double da = (double) sa, db = (double) ib;
		VT_CHECK(sc_max(da, db) == (da > db ? da : db) && sc_min(da, db) == (da < db ? da : db), "min/max of doubles");
		vt_state(vt_hash(v, b));
		if (vt_want_sample() && v > 1000 && v <= 1ull << 63) {
			vt_sample("to_pow2(%" PRIu64 ") = %" PRIu64 ", is_pow2 %d; min/max against %" PRIu64, v, sc_to_pow2(v), is, b);
		}
	}
}

#else
#define MAXG 4
static void seed_bytes(unsigned char *s, int style)
{
	for (int i = 0; i < 256; i++) {
		s[i] = style == 0 ? 0 : style == 1 ? (unsigned char) i : style == 2 ? 0xff : (unsigned char) vt_rnd();
	}
}
static unsigned total[256];
static unsigned long drawn;

void vt_case(uint64_t cn)
{
	int ng = (int) vt_range(1, MAXG), n = (int) vt_range(1, vt_chance(1, 8) ? 20000 : 1500);
	struct sc_rand *g[MAXG];
	unsigned char *want[MAXG], seed[MAXG][256];
	int at[MAXG] = {0}, style = (int) vt_below(8);
	if (cn % 200 == 77) {
		n = 65536 * (int) vt_range(1, 3) + (int) vt_below(400);
		vt_class("past-65536");
	}
	for (int k = 0; k < ng; k++) {
		seed_bytes(seed[k], style);
		if (k > 0 && vt_chance(1, 4)) {
			memcpy(seed[k], seed[0], 256);
		}
		/* the whole output in one read */
		unsigned char *s = vt_malloc(256);
		struct sc_rand *r = vt_malloc(sizeof(*r));
		memcpy(s, seed[k], 256);
		want[k] = vt_malloc((size_t) n);
		memset(r, 0xaa, sizeof(*r));
		sc_rand_init(r, s);
		VT_CHECK(memcmp(s, seed[k], 256) == 0, "the seed was changed");
		sc_rand_read(r, want[k], n);
		/* the generator read in pieces; its object starts with other garbage */
		g[k] = vt_malloc(sizeof(*r));
		memset(g[k], (int) vt_rnd() & 0xff, sizeof(*r));
		sc_rand_init(g[k], s);
		vt_free(s);
		vt_free(r);
	}
	int left = ng;
	while (left > 0) {
		int k = (int) vt_below((uint64_t) ng), l;
		if (at[k] >= n) {
			continue;
		}
		l = vt_chance(1, 3) ? 1 : (int) vt_range(1, n - at[k]);
		if (vt_chance(1, 5)) {
			struct sc_rand before = *g[k];
			unsigned char c[4] = {1, 2, 3, 4};
			switch (vt_below(4)) {
			case 0: sc_rand_read(g[k], c, 0); break;
			case 1: sc_rand_read(g[k], NULL, (int) vt_range(-3, 300)); break;
			case 2: sc_rand_read(g[k], c, (int) vt_range(-5, -1)); break;
			default: sc_rand_read(g[k], c, INT32_MIN);
			}
			VT_CHECK(c[0] == 1 && c[3] == 4, "an empty request wrote something");
			VT_CHECK(memcmp(&before, g[k], sizeof(before)) == 0, "an empty request consumed something");
			vt_class("empty-request");
		}
		unsigned char *out = vt_malloc((size_t) l);
		sc_rand_read(g[k], out, l);
		vt_log("generator %d reads %d at %d", k, l, at[k]);
		VT_CHECK(memcmp(out, want[k] + at[k], (size_t) l) == 0, "generator %d: %d bytes at %d differ from the single read", k, l, at[k]);
		at[k] += l;
		if (at[k] == n) {
			left--;
		}
		vt_free(out);
	}
	for (int k = 0; k < ng; k++) {
		for (int m = 0; m < k; m++) {
			bool eq = memcmp(seed[k], seed[m], 256) == 0;
			if (eq) {
				VT_CHECK(memcmp(want[k], want[m], (size_t) n) == 0, "equal seeds give different streams");
				vt_class("equal-seeds");
			} else if (n >= 32) {
				VT_CHECK(memcmp(want[k], want[m], (size_t) n) != 0, "different seeds give the same stream");
				vt_class("different-seeds");
			}
		}
	}
	for (int round = 0; round < 4; round++) {
		/* random seeds that differ in a single bit: every bit of the seed counts */
		unsigned pos = (unsigned) vt_below(256), bit = (unsigned) vt_below(8), same = 0;
		unsigned char a[256], o1[512], o2[512];
		struct sc_rand r;
		for (int t = 0; t < 16; t++) {
			for (int i = 0; i < 256; i++) {
				a[i] = (unsigned char) vt_rnd();
			}
			sc_rand_init(&r, a);
			sc_rand_read(&r, o1, sizeof(o1));
			a[pos] ^= (unsigned char) (1u << bit);
			sc_rand_init(&r, a);
			sc_rand_read(&r, o2, sizeof(o2));
			same += memcmp(o1, o2, sizeof(o1)) == 0;
		}
		VT_CHECK(same < 8, "%u of 16 random seeds give the same stream with bit %u of byte %u changed", same, bit, pos);
		vt_class("single-bit-seeds");
	}
	if (style >= 3) {
		/* statistics over randomly drawn seeds: 65536 bytes, 256 expected of each value
		 * with a standard deviation of 16; 130..420 is beyond seven of them */
		unsigned cnt[256] = {0};
		static unsigned char o[65536];
		struct sc_rand r;
		unsigned rep = 0;
		sc_rand_init(&r, seed[0]);
		sc_rand_read(&r, o, sizeof(o));
		for (size_t i = 0; i < sizeof(o); i++) {
			cnt[o[i]]++;
			total[o[i]]++;
			rep += i > 0 && o[i] == o[i - 1];
		}
		drawn += sizeof(o);
		for (int i = 0; i < 256; i++) {
			VT_CHECK(cnt[i] > 130 && cnt[i] < 420, "byte %d occurs %u times in 65536 bytes, about 256 are expected", i, cnt[i]);
		}
		VT_CHECK(rep > 130 && rep < 420, "a byte repeats %u times in 65536 bytes, about 256 are expected", rep);
		if (drawn >= 6400 * 1024ul) {
			for (int i = 0; i < 256; i++) {
				double e = (double) drawn / 256;
				VT_CHECK(total[i] > 0.95 * e && total[i] < 1.05 * e, "byte %d occurs %u times in %lu bytes, about %.0f are expected", i, total[i], drawn, e);
			}
			vt_class("long-run-statistics");
			drawn = 0;
			memset(total, 0, sizeof(total));
		}
		vt_class("random-seed");
	}
	vt_state(vt_hash_bytes((uint64_t) n, want[0], n > 64 ? 64 : (size_t) n));
	if (vt_want_sample() && n > 100) {
		vt_sample("%d generators, %d bytes each in random pieces, first bytes %s", ng, n, vt_hex(want[0], 8));
	}
	for (int k = 0; k < ng; k++) {
		vt_free(g[k]);
		vt_free(want[k]);
	}
}
#endif
