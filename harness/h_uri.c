/* Y01: URIs built from known components, and arbitrary text against a
 * reference splitter; exactly sized inputs, refused allocations. */
#include "vt.h"
#include "sc_uri.h"

struct parts {
	const char *p[7];
	size_t n[7];
};
static const char *pname[7] = {"scheme", "userinfo", "host", "port", "path", "query", "fragment"};

enum { REFUSED, ACCEPTED, OPEN };

static bool in(const char *set, char c) { return c && strchr(set, c); }

/* The splitting rules, one component after the other. */
static int split(const char *s, struct parts *o)
{
	size_t n = strlen(s), i = 0, e;
	int verdict = ACCEPTED;
	for (int k = 0; k < 7; k++) {
		o->p[k] = "";
		o->n[k] = 0;
	}
	while (i < n && s[i] != ':') {
		i++;
	}
	if (i == n) {
		return REFUSED;
	}
	if (i == 0) {
		verdict = OPEN; /* ":x": whether an empty scheme is one is not said */
	}
	o->p[0] = s;
	o->n[0] = i++;
	if (i + 1 < n && s[i] == '/' && s[i + 1] == '/') {
		i += 2;
		for (e = i; e < n && !in("/?#", s[e]); e++) {}
		for (size_t k = i; k < e; k++) {
			if (s[k] == '@') {
				o->p[1] = s + i;
				o->n[1] = k - i;
				i = k + 1;
				break;
			}
		}
		o->p[2] = s + i;
		if (i < e && s[i] == '[') {
			size_t k = i;
			while (k < e && s[k] != ']') {
				k++;
			}
			if (k == e) {
				return REFUSED;
			}
			o->n[2] = k + 1 - i;
		} else {
			size_t k = i;
			while (k < e && s[k] != ':') {
				k++;
			}
			o->n[2] = k - i;
		}
		i += o->n[2];
		if (i < e && s[i] == ':') {
			unsigned long v = 0;
			size_t k = ++i;
			for (; k < e; k++) {
				if (s[k] < '0' || s[k] > '9') {
					return REFUSED;
				}
				v = v > 100000 ? v : v * 10 + (unsigned long) (s[k] - '0');
			}
			if (k == i || v > 65535) {
				return REFUSED;
			}
			o->p[3] = s + i;
			o->n[3] = k - i;
			i = k;
		} else if (i < e) {
			verdict = OPEN; /* text after a closing bracket */
		}
	}
	for (e = i; e < n && !in("?#", s[e]); e++) {}
	o->p[4] = s + i;
	o->n[4] = e - i;
	i = e;
	if (i < n && s[i] == '?') {
		for (e = ++i; e < n && s[e] != '#'; e++) {}
		o->p[5] = s + i;
		o->n[5] = e - i;
		i = e;
	}
	if (i < n) {
		o->p[6] = s + i + 1;
		o->n[6] = n - i - 1;
	}
	return verdict;
}

static char text[1200000];
static size_t tn;
static void add(const char *p, size_t n)
{
	if (tn + n < sizeof(text)) {
		memcpy(text + tn, p, n);
		tn += n;
	}
	text[tn] = 0;
}
static void comp(char *o, size_t *n, const char *alphabet, size_t max)
{
	size_t al = strlen(alphabet);
	*n = vt_below(max);
	for (size_t i = 0; i < *n; i++) {
		o[i] = vt_chance(1, 20) ? (char) vt_range(128, 255) : alphabet[vt_below(al)];
	}
}

static void check(const char *s, const struct parts *w, int verdict)
{
	size_t n = strlen(s);
	char *in_ = vt_malloc(n + 1), *copy = vt_malloc(n + 1);
	long live = vt_live;
	const char *got[7];
	memcpy(in_, s, n + 1);
	memcpy(copy, s, n + 1);
	if (vt_chance(1, 6)) {
		uint64_t f = vt_alloc_failed;
		vt_fail_nth(1, vt_chance(1, 2));
		struct sc_uri *u = sc_uri_create(in_);
		vt_fail_off();
		if (vt_alloc_failed != f) {
			VT_CHECK(u == NULL, "a URI was returned although memory ran out");
			vt_class("refused-allocation");
		}
		sc_uri_destroy(u);
		VT_CHECK(vt_live == live, "memory is lost when an allocation is refused");
	}
	errno = (int) vt_below(3) * 17;
	struct sc_uri *u = sc_uri_create(in_);
	vt_log("create %s -> %s", vt_quote(s, n > 400 ? 400 : n), u ? "accepted" : "refused");
	VT_CHECK(memcmp(in_, copy, n + 1) == 0, "the input text was changed");
	vt_free(in_); /* the parts must not live in the input */
	if (verdict == REFUSED) {
		VT_CHECK(u == NULL, "%s is accepted", vt_quote(s, n > 400 ? 400 : n));
		vt_class("refused");
	} else if (verdict == ACCEPTED) {
		VT_CHECK(u != NULL, "%s is refused", vt_quote(s, n > 400 ? 400 : n));
	}
	if (u) {
		got[0] = u->scheme, got[1] = u->userinfo, got[2] = u->host, got[3] = u->port;
		got[4] = u->path, got[5] = u->query, got[6] = u->fragment;
		VT_CHECK(u->str && strcmp(u->str, s) == 0, "the whole text is %s, expected %s", vt_quote(u->str, strlen(u->str) > 400 ? 400 : strlen(u->str)), vt_quote(s, n > 400 ? 400 : n));
		for (int k = 0; k < 7; k++) {
			VT_CHECK(got[k] != NULL, "%s is NULL", pname[k]);
			size_t l = strlen(got[k]);
			if (verdict == ACCEPTED) {
				VT_CHECK(l == w->n[k] && memcmp(got[k], w->p[k], l) == 0, "%s of %s is %s, expected %s", pname[k], vt_quote(s, n > 400 ? 400 : n),
					 vt_quote(got[k], l > 300 ? 300 : l), vt_quote(w->p[k], w->n[k] > 300 ? 300 : w->n[k]));
				if (l) {
					vt_class(pname[k]);
				}
			}
		}
		VT_CHECK(vt_live == live + 1 || verdict == OPEN || vt_live > live, "nothing was allocated");
		if (verdict == OPEN) {
			vt_class("unspecified-split");
		}
	}
	sc_uri_destroy(u);
	VT_CHECK(vt_live == live, "%ld blocks stay after the destroy", vt_live - live);
	vt_free(copy);
}

void vt_case(uint64_t cn)
{
	struct parts w;
	uint64_t shape = 0;
	bool vast = cn % 4000 == 77;
	tn = 0;
	text[0] = 0;
	if (vast || vt_chance(3, 5)) {
		/* built: the parts are known without parsing */
		static char c[7][170000];
		size_t n[7] = {0}, big = vast ? 160000 : vt_chance(1, 40) ? 9000 : vt_chance(1, 8) ? 300 : 12;
		bool auth = vt_chance(3, 4), ui = auth && vt_chance(1, 2), br = auth && vt_chance(1, 3), port = auth && vt_chance(1, 2);
		bool q = vt_chance(1, 2), f = vt_chance(1, 2);
		int bad = -1;
		do {
			comp(c[0], &n[0], "ahtp+-.09Z/?#@[]", vast && vt_chance(1, 2) ? 160000 : 10);
		} while (n[0] == 0);
		if (!vt_chance(1, 6)) {
			for (size_t i = 0; i < n[0]; i++) {
				c[0][i] = "abcxyz"[(unsigned char) c[0][i] % 6];
			}
		}
		if (ui) {
			do {
				comp(c[1], &n[1], "user:pw%0!$&'[];=", big);
			} while (n[1] == 0 && vt_chance(7, 8));
		}
		if (br) {
			comp(c[2] + 1, &n[2], "0123456789abcdef:.%v@", big);
			if (!ui) { /* an '@' would make it user information */
				for (size_t i = 1; i <= n[2]; i++) {
					c[2][i] = c[2][i] == '@' ? ':' : c[2][i];
				}
			}
			c[2][0] = '[';
			c[2][1 + n[2]] = ']';
			n[2] += 2;
		} else if (auth) {
			comp(c[2], &n[2], "host.-09]xyz", big);
			if (ui && vt_chance(1, 8) && n[2] > 1) {
				c[2][1] = '@'; /* only the first one delimits */
			}
		}
		if (port) {
			uint64_t v = vt_chance(1, 4) ? 65535 - vt_below(3) : vt_chance(1, 4) ? vt_below(3) : vt_below(65536);
			if (vt_chance(1, 4)) {
				static const char *wrong[] = {"65536", "65537", "99999", "4294967296", "4294967376", "18446744073709551616", "18446744073709551696", "-1", "+80", " 80",
							      "80a", "8 0", "", "0x50", "80:", "80:90", ":", "a", "\t1", "1e2", "99999999999999999999999", "8@1"};
				bad = (int) vt_below(sizeof(wrong) / sizeof(wrong[0]));
				if (!ui && strchr(wrong[bad], '@')) {
					bad = 0;
				}
				n[3] = strlen(wrong[bad]);
				memcpy(c[3], wrong[bad], n[3]);
			} else {
				n[3] = (size_t) sprintf(c[3], vt_chance(1, 6) ? "%07lu" : "%lu", (unsigned long) v);
			}
		}
		comp(c[4] + (auth ? 1 : 0), &n[4], "pa/th:@[]=&;.//%20", big);
		if (auth && (n[4] || vt_chance(1, 2))) {
			c[4][0] = '/';
			n[4]++;
		} else if (!auth && n[4] > 1 && c[4][0] == '/' && c[4][1] == '/') {
			c[4][1] = 'p'; /* "//" would start an authority */
		}
		if (q) {
			comp(c[5], &n[5], "q=1&/?:@[]//#", big);
			for (size_t i = 0; i < n[5]; i++) {
				c[5][i] = c[5][i] == '#' ? '?' : c[5][i];
			}
		}
		if (f) {
			comp(c[6], &n[6], "frag#?/:@[]//", big);
		}
		for (int k = 0; k < 7; k++) {
			w.p[k] = c[k];
			w.n[k] = n[k];
		}
		add(c[0], n[0]);
		add(":", 1);
		if (auth) {
			add("//", 2);
			if (ui) {
				add(c[1], n[1]);
				add("@", 1);
			}
			add(c[2], n[2]);
			if (port) {
				add(":", 1);
				add(c[3], n[3]);
			}
		}
		add(c[4], n[4]);
		if (q) {
			add("?", 1);
			add(c[5], n[5]);
		}
		if (f) {
			add("#", 1);
			add(c[6], n[6]);
		}
		vt_class("built");
		if (tn > 65536) {
			vt_class("past-65536");
		}
		/* two independent oracles must agree */
		struct parts w2;
		int v2 = split(text, &w2);
		if (v2 != (bad >= 0 ? REFUSED : ACCEPTED)) {
			vt_die("reference splitter verdict %d for built %s (bad %d)", v2, vt_quote(text, tn > 300 ? 300 : tn), bad);
		}
		for (int k = 0; k < 7 && bad < 0; k++) {
			if (w.n[k] != w2.n[k] || memcmp(w.p[k], w2.p[k], w.n[k])) {
				vt_die("reference splitter: %s of %s", pname[k], vt_quote(text, tn > 300 ? 300 : tn));
			}
		}
		check(text, &w, v2);
		shape = (uint64_t) (auth | ui << 1 | br << 2 | port << 3 | q << 4 | f << 5);
	} else {
		int v, pieces = (int) vt_below(14);
		static const char *frag[] = {":", "//", "/", "?", "#", "@", "[", "]", "[::1]", ":80", ":65536", "://", "a", "host", "1", "", " ", "user:pw@", "65535", "http", ":-1", ":+1", "\xff", "%s", "%n"};
		if (vt_chance(1, 2)) {
			add("s:", 2);
			if (vt_chance(2, 3)) {
				add("//", 2);
			}
		}
		for (int i = 0; i < pieces; i++) {
			const char *p = frag[vt_below(sizeof(frag) / sizeof(frag[0]))];
			add(p, strlen(p));
		}
		v = split(text, &w);
		check(text, &w, v);
		vt_class("arbitrary");
		VT_CHECK(sc_uri_create(NULL) == NULL, "NULL is accepted");
	}
	if (vt_want_sample() && tn > 20 && tn < 100) {
		vt_sample("%s", vt_quote(text, tn));
	}
	vt_state(vt_hash_bytes(shape, text, tn));
}
