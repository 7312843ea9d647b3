/* O01: sc_option_at against a rule-by-rule reference, on exactly sized
 * arguments and tables full of near misses. */
#include "vt.h"
#include "sc_option.h"

static char *dup_exact(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = vt_malloc(n);
	memcpy(p, s, n);
	return p;
}

static const char *name_pool[] = {"a", "ab", "abc", "abcd", "key", "keys", "ke", "Key", "key-file", "key ", "-key", "k=v", "x", "verbose", "verbosity",
				  "v", "-", "--", "no-key", "long-option-name-that-goes-on-and-on", "\xc3\xa9t\xc3\xa9", "n\nm", " "};
#define NPOOL (sizeof(name_pool) / sizeof(name_pool[0]))
static const char letters[] = "abcdkvxyzABK019_.,:;+*/#@!~^|=? \x80\xff\x01";

static void rand_text(char *o, size_t max)
{
	static const char al[] = "=- abkeyv=\t,=x";
	size_t n = vt_below(max);
	for (size_t i = 0; i < n; i++) {
		o[i] = vt_chance(1, 12) ? (char) vt_range(1, 255) : al[vt_below(sizeof(al) - 1)];
	}
	o[n] = 0;
}

void vt_case(uint64_t cn)
{
	int n = (int) vt_below(vt_chance(1, 10) ? vt_chance(1, 15) ? 700 : 40 : 7), argc = 1 + (int) vt_below(10);
	struct sc_option_item *tab = vt_malloc(sizeof(*tab) * (size_t) n + (n == 0));
	/* sometimes the arguments come behind very many others */
	int behind = vt_chance(1, 40) ? vt_chance(1, 40) ? 65536 + (int) vt_below(300) : (int) vt_below(700) : 0;
	char **all = vt_malloc(sizeof(*all) * (size_t) (argc + behind)), **argv = all + behind;
	uint64_t h = (uint64_t) n;
	static char buf[70400], other[] = "another argument";
	bool vast = vt_chance(1, 25);
	(void) cn;

	for (int i = 0; i < n; i++) {
		char l;
		do {
			l = vt_chance(3, 4) ? letters[vt_below(8)] : letters[vt_below(sizeof(letters) - 1)];
		} while (l == 0);
		if (vt_chance(1, 10)) { /* an option with a long name only */
			l = 0;
			vt_class("no-letter");
		}
		const char *nm = vt_chance(1, 6) ? NULL : name_pool[vt_chance(1, 2) ? vt_below(6) : vt_below(NPOOL)];
		static char wide[70100];
		if (vast && vt_chance(1, 2)) { /* as long as a name gets, of a few lengths a multiple of 256 (or 65536) apart */
			size_t wl = vt_below(4) + (vt_chance(1, 30) ? 65536 : 256 * vt_below(3));
			memset(wide, "ak"[vt_below(2)], wl);
			wide[wl] = 0;
			nm = wide;
			if (wl >= 256) {
				vt_class("long-name");
			}
		}
		/* an '=' in a name can never match, since '=' ends it */
		struct sc_option_item it = {l, nm ? dup_exact(nm) : NULL};
		memcpy((void *) &tab[i], &it, sizeof(it));
		h = vt_hash(h, (uint64_t) (unsigned char) l);
		vt_log("option %d: letter 0x%02x name %s", i, (unsigned char) l, nm ? vt_quote(nm, strlen(nm)) : "(none)");
	}
	for (int i = 0; i < argc; i++) {
		char v[40];
		const struct sc_option_item *it = n ? &tab[vt_below((uint64_t) n)] : NULL;
		const char *nm = it && it->name ? it->name : name_pool[vt_below(NPOOL)];
		char l = it && vt_chance(3, 4) ? it->letter : letters[vt_below(sizeof(letters) - 1)];
		rand_text(v, 30);
		switch (vt_below(14)) {
		case 0: snprintf(buf, sizeof(buf), "-%c", l); break;
		case 1: case 2: snprintf(buf, sizeof(buf), "-%c=%s", l, v); break;
		case 3: snprintf(buf, sizeof(buf), "-%c %s", l, v); break;
		case 4: snprintf(buf, sizeof(buf), "-%c%s", l, v); break;
		case 5: snprintf(buf, sizeof(buf), "--%s", nm); break;
		case 6: case 7: snprintf(buf, sizeof(buf), "--%s=%s", nm, v); break;
		case 8: snprintf(buf, sizeof(buf), "--%s%s", nm, v); break;
		case 9: snprintf(buf, sizeof(buf), "--%.*s", (int) vt_below(strlen(nm) + 1), nm); break;
		case 10: snprintf(buf, sizeof(buf), "%s%s", vt_chance(1, 2) ? "-" : vt_chance(1, 2) ? "--" : "", v); break;
		case 11: snprintf(buf, sizeof(buf), "%s", vt_chance(1, 2) ? nm : "-"); break;
		case 12: snprintf(buf, sizeof(buf), "---%s", nm); break;
		default: snprintf(buf, sizeof(buf), "-%s=%s", nm, v); break;
		}
		argv[i] = dup_exact(buf);
	}
	for (int i = 0; i < behind; i++) {
		all[i] = other;
	}
	if (behind > 65535) {
		vt_class("past-65536-arguments");
	} else if (behind > 255) {
		vt_class("past-255-arguments");
	}
	if (n > 255) {
		vt_class("past-255-options");
	}
	struct sc_option opt = {.options = tab, .count = n, .argv = all};
	for (int rep = 0; rep < argc + 3; rep++) {
		int i = rep < argc ? rep : (int) vt_below((uint64_t) argc);
		char *copy = dup_exact(argv[i]), *a = argv[i], *value = (char *) 0x1, *keep = a;
		size_t al = strlen(a);
		const char *want_val = NULL;
		int first = -1;
		bool open = false, blank = false;
		char c;
		/* reference: the first entry of the table that matches */
		if (a[0] == '-' && a[1] != '-') {
			for (int k = 0; k < n && first < 0; k++) {
				if (a[1] != 0 && a[1] == tab[k].letter && (a[2] == 0 || a[2] == '=' || a[2] == ' ')) {
					first = k;
					want_val = a[2] == '=' ? a + 3 : a[2] == 0 ? a + 2 : NULL;
					blank = a[2] == ' ';
				}
			}
		} else if (a[0] == '-') {
			const char *e = strchr(a, '=');
			size_t l = e ? (size_t) (e - a - 2) : al - 2;
			for (int k = 0; k < n && first < 0; k++) {
				if (tab[k].name && strlen(tab[k].name) == l && strncmp(tab[k].name, a + 2, l) == 0) {
					first = k;
					want_val = e ? e + 1 : a + al;
				}
			}
			/* two entries with one name: either letter is an exact match */
			for (int k = first + 1; first >= 0 && k < n; k++) {
				open |= tab[k].name && !strcmp(tab[k].name, tab[first].name) && tab[k].letter != tab[first].letter;
			}
		}
		c = sc_option_at(&opt, behind + i, &value);
		vt_log("argument %s -> 0x%02x", vt_quote(a, al), (unsigned char) c);
		if (first < 0) {
			VT_CHECK(c == '?', "%s gives 0x%02x, it is no known option", vt_quote(a, al), (unsigned char) c);
			vt_class(a[0] != '-' ? "no-dash" : a[1] == '-' ? "unknown-long" : "unknown-short");
		} else {
			bool ok = c == tab[first].letter;
			for (int k = 0; open && k < n; k++) {
				ok |= tab[k].name && !strcmp(tab[k].name, tab[first].name) && c == tab[k].letter;
			}
			VT_CHECK(ok, "%s gives 0x%02x, expected option 0x%02x", vt_quote(a, al), (unsigned char) c, (unsigned char) tab[first].letter);
			VT_CHECK(value != NULL, "%s is recognised but its value is missing", vt_quote(a, al));
			if (blank) {
				VT_CHECK(value >= a + 2 && value <= a + al, "the value of %s is not inside the argument", vt_quote(a, al));
				vt_class("blank-after-letter");
			} else if (*want_val != 0) {
				VT_CHECK(value == want_val, "%s: the value is not the text after '=' in place", vt_quote(a, al));
				vt_class(strchr(want_val, '=') ? "value-with-equals" : "value");
			} else {
				VT_CHECK(*value == 0, "%s: value %s, expected the empty text", vt_quote(a, al), vt_quote(value, strlen(value)));
				vt_class(a[al - 1] == '=' ? "empty-value" : "no-value");
			}
			vt_class(a[1] == '-' ? "long" : "short");
		}
		VT_CHECK(argv[i] == keep && opt.count == n && opt.argv == all && opt.options == tab && strcmp(a, copy) == 0, "the arguments were changed");
		h = vt_hash_bytes(h, a, al);
		if (vt_want_sample() && first >= 0 && al > 4) {
			vt_sample("%s among %d options -> '%c' with value %s", vt_quote(a, al), n, c, vt_quote(value, strlen(value)));
		}
		vt_free(copy);
	}
	for (int i = 0; i < argc; i++) {
		vt_free(argv[i]);
	}
	for (int i = 0; i < n; i++) {
		vt_free((void *) tab[i].name);
	}
	vt_state(h);
	vt_free(all);
	vt_free(tab);
}
