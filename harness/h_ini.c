/* I01 (documents built with known entries) and I02 (arbitrary bytes against a
 * reference parser, callbacks that stop, files that cannot be read). */
#include "vt.h"
#include "sc_ini.h"
#include <sys/stat.h>
#include <unistd.h>

#define LIM (SC_INI_MAX_LINE_LEN - 1)
#define MAXE 400

struct ent {
	int line;
	char *sec, *key, *val;
};
static struct ent want[MAXE];
static int nwant, pos, stop_at, calls;
static char *doc;
static size_t dn, dcap;
static const char *source;

static void out(const char *p, size_t n)
{
	if (dn + n + 1 > dcap) {
		dcap = (dn + n + 1) * 2;
		doc = vt_realloc(doc, dcap);
	}
	memcpy(doc + dn, p, n);
	dn += n;
	doc[dn] = 0;
}
static void outs(const char *s) { out(s, strlen(s)); }

static char *dup_n(const char *s, size_t n)
{
	char *p = vt_malloc(n + 1);
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}
static void expect_n(int line, const char *sec, const char *key, const char *val)
{
	if (nwant < MAXE) {
		want[nwant].line = line;
		want[nwant].sec = dup_n(sec, strlen(sec));
		want[nwant].key = dup_n(key, strlen(key));
		want[nwant].val = dup_n(val, strlen(val));
		nwant++;
	}
}

/* sections and repeated keys are kept in 255 characters; longer may be cut */
static bool same(const char *a, const char *b)
{
	size_t la = strlen(a), lb = strlen(b);
	if (lb <= 255) {
		return strcmp(a, b) == 0;
	}
	return la >= 255 && la <= lb && strncmp(a, b, la) == 0;
}

/* a callback may well parse another document meanwhile */
static int inner_n;
static int inner_cb(void *arg, int line, const char *section, const char *key, const char *value)
{
	static const char *want_in[][4] = {{"other section", "key", "value"}, {"other section", "key", "more"}, {"x", "k2", ""}};
	VT_CHECK(arg == &inner_n && inner_n < 3, "inner document: callback %d", inner_n);
	const char **w = want_in[inner_n++];
	VT_CHECK(line == inner_n + (inner_n == 3 ? 2 : 1) && !strcmp(section, w[0]) && !strcmp(key, w[1]) && !strcmp(value, w[2]),
		 "a document parsed inside a callback reports line %d section %s key %s value %s", line, section, key, value);
	return 0;
}
static void inner(void)
{
	inner_n = 0;
	int rc = sc_ini_parse_string(&inner_n, inner_cb, "[other section]\nkey = value ; c\n  more\n[x]\nk2:\n");
	VT_CHECK(rc == 0 && inner_n == 3, "a document parsed inside a callback: %d, %d entries", rc, inner_n);
	vt_class("parsed-inside-a-callback");
}

static int cb(void *arg, int line, const char *section, const char *key, const char *value)
{
	calls++;
	vt_log("%s reports line %d section %s key %s value %s", source, line, vt_quote(section, strlen(section)), vt_quote(key, strlen(key)),
	       vt_quote(value, strlen(value) > 60 ? 60 : strlen(value)));
	if (arg != (void *) want) {
		vt_fail("the callback argument is not the user's");
	}
	if (pos >= nwant) {
		vt_fail("%s: entry reported at line %d that is not in the document", source, line);
	}
	struct ent *e = &want[pos++];
	VT_CHECK(line == e->line, "%s: entry %d reported at line %d, it is at line %d", source, pos, line, e->line);
	VT_CHECK(same(section, e->sec), "%s: line %d has section %s, expected %s", source, line, vt_quote(section, strlen(section)), vt_quote(e->sec, strlen(e->sec)));
	VT_CHECK(same(key, e->key), "%s: line %d has key %s, expected %s", source, line, vt_quote(key, strlen(key)), vt_quote(e->key, strlen(e->key)));
	VT_CHECK(strcmp(value, e->val) == 0, "%s: line %d has value %s, expected %s", source, line, vt_quote(value, strlen(value)), vt_quote(e->val, strlen(e->val)));
	if (vt_chance(1, 40)) {
		const char *k = e->key;
		inner();
		/* and what this one was given is still there */
		VT_CHECK(same(section, e->sec) && same(key, k) && strcmp(value, e->val) == 0, "%s: line %d's texts changed while another document was parsed", source, line);
	}
	if (pos - 1 == stop_at) {
		return vt_chance(1, 2) ? -1 : (int) vt_range(1, 1000);
	}
	return 0;
}

/* ---- a stream with faults ---- */
static bool use_cookie, read_only;
static size_t ck_pos, ck_fail;
static long ck_open, ck_reads_failed;
static ssize_t ck_read(void *c, char *b, size_t n)
{
	(void) c;
	size_t left;
	if (ck_pos >= ck_fail) {
		errno = EIO;
		ck_reads_failed++;
		return -1;
	}
	left = (dn < ck_fail ? dn : ck_fail) - ck_pos;
	if (n > left) {
		n = left;
	}
	if (n > 1) {
		n = 1 + vt_below(n); /* short reads */
	}
	memcpy(b, doc + ck_pos, n);
	ck_pos += n;
	return (ssize_t) n;
}
static int ck_close(void *c)
{
	(void) c;
	ck_open--;
	return 0;
}
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m)
{
	if (use_cookie) {
		cookie_io_functions_t f = {.read = ck_read, .close = ck_close};
		ck_open++;
		ck_pos = 0;
		return fopencookie(NULL, "r", f);
	}
	if (read_only && strpbrk(m, "+wa")) { /* as for a user who is not root */
		errno = EACCES;
		return NULL;
	}
	return __real_fopen(p, m);
}

static char path[300];
static void write_doc(void)
{
	FILE *f;
	snprintf(path, sizeof(path), "%s/doc.ini", vt_tmpdir);
	f = __real_fopen(path, "wb");
	if (!f || fwrite(doc, 1, dn, f) != dn || fclose(f)) {
		vt_die("cannot write %s", path);
	}
}

static int fds0;
static void run_file(int expected, int entries)
{
	long open0 = ck_open;
	int rc;
	write_doc();
	source = "file";
	pos = calls = 0;
	use_cookie = vt_chance(1, 2);
	ck_fail = SIZE_MAX;
	read_only = vt_chance(1, 2);
	rc = sc_ini_parse_file(want, cb, path);
	read_only = false;
	use_cookie = false;
	vt_log("file -> %d", rc);
	VT_CHECK(rc == expected, "file: returned %d, expected %d", rc, expected);
	VT_CHECK(calls == entries, "file: %d of %d entries reported", calls, entries);
	VT_CHECK(ck_open == open0 && vt_fd_count() == fds0, "file left open");
}
static void run_string(int expected, int entries)
{
	char *s = dup_n(doc, dn); /* exactly sized */
	int rc;
	source = "string";
	pos = calls = 0;
	rc = sc_ini_parse_string(want, cb, s);
	vt_log("string -> %d", rc);
	VT_CHECK(rc == expected, "string: returned %d, expected %d", rc, expected);
	VT_CHECK(calls == entries, "string: %d of %d entries reported", calls, entries);
	VT_CHECK(memcmp(s, doc, dn + 1) == 0, "the input was changed");
	vt_free(s);
}

static void reset(void)
{
	for (int i = 0; i < nwant; i++) {
		vt_free(want[i].sec);
		vt_free(want[i].key);
		vt_free(want[i].val);
	}
	nwant = 0;
	dn = 0;
	out("", 0);
	stop_at = -1;
	if (!fds0) {
		fds0 = vt_fd_count();
	}
}

static const char *junk = "abcXYZ019._-/\\\"'%$@!()*&^{}<>,?~`";

#if MODE == 1
static void blanks(int max, bool tabs)
{
	for (int n = (int) vt_below((uint64_t) max + 1); n > 0; n--) {
		outs(tabs && vt_chance(1, 4) ? "\t" : " ");
	}
}
/* text without leading/trailing blanks in which no comment can start */
static char *word(size_t max, const char *extra, bool spaces)
{
	static char b[4][2000];
	static int r;
	char *o = b[r++ & 3];
	size_t n = 1 + vt_size(max - 1), el = strlen(extra);
	for (size_t i = 0; i < n; i++) {
		if (el && vt_chance(1, 6)) {
			o[i] = extra[vt_below(el)];
		} else if (vt_chance(1, 15)) {
			o[i] = (char) (128 + vt_below(128));
		} else if (vt_chance(1, 40)) { /* control characters that are no blanks */
			o[i] = "\x01\x02\x04\x08\x0e\x10\x1a\x1b\x1f\x7f"[vt_below(10)];
			vt_class("control-character");
		} else {
			o[i] = junk[vt_below(strlen(junk))];
		}
		if (spaces && i > 0 && i + 1 < n && vt_chance(1, 8)) {
			o[i] = vt_chance(1, 5) ? '\t' : ' ';
		}
	}
	o[n] = 0;
	for (size_t i = 1; i < n; i++) { /* no comment marker after a space */
		if ((o[i] == ';' || o[i] == '#') && o[i - 1] == ' ') {
			o[i] = 'c';
		}
	}
	return o;
}
static void comment_tail(void)
{
	blanks(3, true);
	if (vt_chance(1, 4)) {
		outs(" ");
		outs(vt_chance(1, 2) ? ";" : "#");
		if (vt_chance(3, 4)) {
			outs(word(vt_chance(1, 30) ? 1500 : 30, ";# =:[]", true));
		}
		vt_class("trailing-comment");
	}
}

void vt_case(uint64_t n)
{
	int lines = (int) (vt_chance(1, 20) ? vt_range(20, 250) : vt_range(0, 20)), style = (int) vt_below(3);
	char sec[300] = "", key[2000] = "";
	bool have_key = false, bom = vt_chance(1, 8);
	uint64_t h = 1;
	reset();
	if (bom) {
		outs("\xEF\xBB\xBF");
		vt_class("bom");
	}
	int skip = n % 5000 == 77 ? 65530 + (int) vt_below(100) : 0; /* more lines than 16 bits count */
	for (int l = 0; l < skip; l++) {
		outs("\n");
	}
	if (skip) {
		vt_class("past-65536");
	}
	for (int l = 1; l <= lines; l++) {
		int k = (int) vt_below(12);
		size_t start = dn;
		h = vt_hash(h, (uint64_t) k);
		if (k == 0) {
			blanks(5, true);
		} else if (k == 1) {
			blanks(4, false);
			outs(vt_chance(1, 2) ? ";" : "#");
			if (vt_chance(4, 5)) {
				outs(word(vt_chance(1, 20) ? 1800 : 40, ";#=:[] ", true));
			}
			vt_class("comment");
		} else if (k == 2 || k == 3) {
			if (!have_key) {
				blanks(3, false);
			}
			char *s = word(vt_chance(1, 20) ? 255 : 30, "=:[;#", true);
			if (s[0] == ';' || s[0] == '#' || (dn > start && s[0] == ' ')) {
				s[0] = 's';
			}
			outs("[");
			outs(s);
			outs("]");
			if (vt_chance(1, 6)) {
				outs("]x=1");
			}
			comment_tail();
			snprintf(sec, sizeof(sec), "%s", s);
			have_key = false;
			vt_class("section");
		} else if (k < 9 || !have_key) {
			bool empty = vt_chance(1, 25);
			char *w = word(vt_chance(1, 25) ? 255 : 20, "[];#", true);
			char val[2000];
			if (w[0] == '[' || w[0] == ';' || w[0] == '#' || (l + skip == 1 && (unsigned char) w[0] >= 0xe0)) {
				w[0] = 'k';
			}
			/* only at the very start of the input is it a mark */
			bool mark = (l + skip > 1 || bom) && !empty && strlen(w) < 250 && vt_chance(1, 25);
			snprintf(key, sizeof(key), "%s%s", mark ? "\xEF\xBB\xBF" : "", empty ? "" : w);
			if (mark) {
				vt_class("mark-inside");
			}
			if (!have_key) {
				blanks(3, false);
			}
			outs(key);
			if (!(empty && have_key)) { /* else it would be a continuation */
				blanks(3, true);
			}
			outs(vt_chance(1, 2) ? "=" : ":");
			bool gap = vt_chance(1, 2);
			char *v = vt_chance(1, 8) ? "" : word(vt_chance(1, 25) ? 1900 : 40, "=:[];#", true);
			if (gap) {
				outs(vt_chance(1, 4) ? "  " : " ");
				if (v[0] == ';' || v[0] == '#') {
					v[0] = 'v';
				}
			}
			snprintf(val, sizeof(val), "%s", v);
			outs(val);
			if (dn - start > LIM) { /* shortened */
				size_t vs = dn - strlen(val);
				size_t keep = vs - start >= LIM ? 0 : LIM - (vs - start);
				val[keep] = 0;
				while (keep && (val[keep - 1] == ' ' || val[keep - 1] == '\t')) {
					val[--keep] = 0;
				}
				vt_class("long-line");
			} else {
				comment_tail();
			}
			if (l + skip == 1 && bom && dn - start > LIM - 3) {
				/* the mark counts as part of the line */
				dn = start;
				doc[dn] = 0;
				outs("#");
				goto eol;
			}
			expect_n(l + skip, sec, key, val);
			have_key = !empty;
			vt_class(empty ? "empty-key" : *val ? "entry" : "empty-value");
		} else {
			char *v = word(vt_chance(1, 25) ? 1900 : 40, "=:[];#", true), val[2000];
			outs(vt_chance(1, 4) ? "\t" : vt_chance(1, 2) ? " " : "    ");
			if (v[0] == ';' || v[0] == '#') {
				v[0] = 'v';
			}
			snprintf(val, sizeof(val), "%s", v);
			outs(val);
			if (dn - start > LIM) {
				size_t vs = dn - strlen(val);
				size_t keep = LIM - (vs - start);
				val[keep] = 0;
				while (keep && (val[keep - 1] == ' ' || val[keep - 1] == '\t')) {
					val[--keep] = 0;
				}
				vt_class("long-line");
			} else {
				comment_tail();
			}
			expect_n(l + skip, sec, key, val);
			vt_class("continuation");
		}
	eol:
		if (l < lines || vt_chance(2, 3)) {
			outs(style == 1 || (style == 2 && vt_chance(1, 2)) ? "\r\n" : "\n");
		}
	}
	vt_log("document (after %d empty lines): %s", skip, vt_quote(doc + skip, dn - (size_t) skip));
	run_string(0, nwant);
	run_file(0, nwant);
	vt_state(vt_hash_bytes(h, doc, dn));
	if (vt_want_sample() && nwant > 2 && dn < 300) {
		vt_sample("%d lines, %d entries, the same from memory and from a file: %s", lines, nwant, vt_quote(doc, dn));
	}
}
#else

/* reference: returns 0 or the first malformed line; fills want[] */
static bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static void trim(char **b, char **e)
{
	while (*b < *e && blank(**b)) {
		(*b)++;
	}
	while (*e > *b && blank((*e)[-1])) {
		(*e)--;
	}
}
static int reference(const char *p, size_t n)
{
	char sec[LIM + 1] = "", key[LIM + 1] = "", k[LIM + 1], v[LIM + 1], ln[LIM + 1];
	size_t i = 0;
	int line = 0;
	while (i < n) {
		size_t len = 0;
		char *b, *e, *q;
		bool bom = false;
		while (i < n && p[i] != '\n') {
			if (len < LIM) {
				ln[len++] = p[i];
			}
			i++;
		}
		i++;
		ln[len] = 0;
		len = strlen(ln);
		line++;
		b = ln;
		e = ln + len;
		if (line == 1 && len >= 3 && memcmp(ln, "\xEF\xBB\xBF", 3) == 0) {
			b += 3;
			bom = true;
		}
		/* comment: at the start of the line or behind a space */
		for (q = b; q < e; q++) {
			if ((*q == ';' || *q == '#') && (q == b || q[-1] == ' ')) {
				e = q;
				break;
			}
		}
		char *b0 = b;
		trim(&b, &e);
		if (b == e) {
			continue;
		}
		*e = 0;
		(void) bom;
		if (b > b0 && *key) {
			expect_n(line, sec, key, b);
		} else if (*b == '[') {
			q = strchr(b, ']');
			if (!q) {
				return line;
			}
			*key = 0;
			snprintf(sec, sizeof(sec), "%.*s", (int) (q - b - 1), b + 1);
		} else {
			q = b;
			while (*q && *q != '=' && *q != ':') {
				q++;
			}
			if (!*q) {
				return line;
			}
			char *kb = b, *ke = q, *vb = q + 1, *ve = e;
			trim(&kb, &ke);
			trim(&vb, &ve);
			snprintf(k, sizeof(k), "%.*s", (int) (ke - kb), kb);
			snprintf(v, sizeof(v), "%.*s", (int) (ve - vb), vb);
			strcpy(key, k);
			expect_n(line, sec, k, v);
		}
	}
	return 0;
}

void vt_case(uint64_t n)
{
	size_t want_n = vt_chance(1, 15) ? 1000 + vt_below(3000) : vt_size(400);
	int style = (int) vt_below(5), bad, stopped = 0;
	static const char *al[] = {"ab[]=:;# \t\n\r", "a=\n ;", "k=v\n[s]\n ", "\n\n a:b#"};
	uint64_t h = 2;
	(void) n;
	reset();
	if (vt_chance(1, 6)) {
		outs(vt_chance(1, 2) ? "\xEF\xBB\xBF" : "\xEF\xBB");
	}
	while (dn < want_n) {
		if (style == 4 || vt_chance(1, 40)) {
			char c = (char) (1 + vt_below(255));
			if (style == 4 && vt_chance(1, 4)) {
				c = "\n=[]"[vt_below(4)];
			}
			out(&c, 1);
		} else if (vt_chance(1, 4)) {
			static const char *pc[] = {"[sec]\n", "key = value\n", "  more\n", "k:v ;c\n", "[s", "=x\n", " = \n", "\t;t\n", "\r\n", "a", " #", "\v\f", "\xEF\xBB\xBF", "\n\xEF\xBB\xBFk=v\n", "novalue\n", "key=value"};
			outs(pc[vt_below(style == 2 ? 14 : 16)]);
		} else if (vt_chance(1, 60)) { /* long run up to and beyond the limit */
			size_t l = LIM - 6 + vt_below(12);
			char c = "ax =;["[vt_below(6)];
			while (l--) {
				out(&c, 1);
			}
			vt_class("line-at-limit");
		} else {
			out(&al[style][vt_below(strlen(al[style]))], 1);
		}
	}
	bad = reference(doc, dn);
	if (nwant >= MAXE) {
		return;
	}
	vt_log("document of %zu bytes, expected %d after %d entries: %s", dn, bad, nwant, vt_quote(doc, dn > 500 ? 500 : dn));
	run_string(bad, nwant);
	run_file(bad, nwant);
	if (nwant && vt_chance(1, 2)) {
		stop_at = (int) vt_below((uint64_t) nwant);
		int line = want[stop_at].line;
		run_string(line, stop_at + 1);
		run_file(line, stop_at + 1);
		stop_at = -1;
		stopped = 1;
		vt_class("callback-stopped");
	}
	/* zero bytes can only come from a file; they end their line's text */
	if (vt_chance(1, 5) && dn) {
		int keep = nwant;
		for (int i = 0; i < 3; i++) {
			doc[vt_below(dn)] = 0;
		}
		reset();
		dn = want_n > 1 ? want_n - 1 : 1;
		bad = reference(doc, dn);
		(void) keep;
		vt_log("with zero bytes: %s", vt_quote(doc, dn > 500 ? 500 : dn));
		if (nwant < MAXE) {
			run_file(bad, nwant);
		}
		vt_class("zero-bytes");
	} else if (vt_chance(1, 3)) {
		/* a read error after ck_fail bytes */
		int rc, full = bad;
		long open0 = ck_open;
		write_doc();
		use_cookie = true;
		ck_fail = vt_below(dn + 1);
		ck_reads_failed = 0;
		source = "failing file";
		pos = calls = 0;
		rc = sc_ini_parse_file(want, cb, path);
		use_cookie = false;
		vt_log("read error after %zu bytes -> %d", ck_fail, rc);
		if (ck_reads_failed) {
			VT_CHECK(rc == -1 || (full > 0 && rc == full), "unreadable file: returned %d", rc);
			vt_class("read-error");
		}
		VT_CHECK(ck_open == open0 && vt_fd_count() == fds0, "file left open after a read error");
		ck_fail = SIZE_MAX;
	}
	if (vt_chance(1, 30)) {
		char p[400];
		source = "missing file";
		pos = nwant;
		snprintf(p, sizeof(p), "%s/missing/x.ini", vt_tmpdir);
		VT_CHECK(sc_ini_parse_file(want, cb, p) == -1, "missing file not reported");
		VT_CHECK(sc_ini_parse_file(want, cb, vt_tmpdir) == -1, "directory not reported");
		VT_CHECK(sc_ini_parse_string(want, cb, NULL) == 0 && sc_ini_parse_string(want, cb, "") == 0, "empty input");
		VT_CHECK(vt_fd_count() == fds0, "file left open");
		vt_class("missing-file");
	}
	vt_class(bad ? "malformed" : "well-formed");
	if (bad && nwant) {
		vt_class("entries-before-error");
	}
	vt_state(vt_hash_bytes(h, doc, dn));
	if (vt_want_sample() && nwant && bad && dn < 200) {
		vt_sample("%zu bytes, %d entries then line %d refused%s: %s", dn, nwant, bad, stopped ? ", also with a stopping callback" : "", vt_quote(doc, dn));
	}
}
#endif
