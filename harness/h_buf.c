/* B01 (round trip), B02 (hostile reads), B03 (writes): sc_buf against plain
 * byte arrays and an independent encoder. MODE selects the property. */
#include "vt.h"
#include "sc_buf.h"
#include <sys/mman.h>

static unsigned char *mb; /* model of the stored bytes */
static uint64_t mb_cap;

static void need(uint64_t n)
{
	if (n > mb_cap) {
		mb_cap = n * 2 + 64;
		mb = vt_realloc(mb, mb_cap);
	}
}
static void le(unsigned char *p, uint64_t v, int n)
{
	for (int i = 0; i < n; i++) {
		p[i] = (unsigned char) (v >> (8 * i));
	}
}
static uint64_t un(const unsigned char *p, int n)
{
	uint64_t v = 0;
	for (int i = n - 1; i >= 0; i--) {
		v = v << 8 | p[i];
	}
	return v;
}
static const uint64_t ABSENT = UINT64_MAX - 4096; /* documented reserved length */

/* Positions past 4 GiB: storage and model are reserved, not filled. */
#define G32 (1ull << 32)
static bool giant, vast;
static unsigned char *lazy(uint64_t n)
{
	void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		vt_die("mmap of %" PRIu64 " bytes", n);
	}
	return p;
}

/* a size that is small, or places the end of the data near a storage boundary */
static uint64_t pick_len(uint64_t wpos, uint64_t cap, uint64_t over, uint64_t max)
{
	uint64_t edge, v;
	if (vast && vt_chance(1, 2)) {
		v = (vt_chance(1, 4) ? 2 * 65536 : 65536) + vt_below(24) - 12;
		if (v <= max) {
			vt_class("past-65536");
			return v;
		}
	}
	switch (vt_below(6)) {
	case 0: case 1: return vt_below(12);
	case 2: return vt_size(max);
	case 3: edge = cap; break;
	case 4: edge = (wpos / 4096 + 1) * 4096; break;
	default: edge = cap + 4096; break;
	}
	edge += vt_below(5) - 2;
	if (edge < wpos + over) {
		return 0;
	}
	v = edge - wpos - over;
	return v > max ? vt_below(max) : v;
}

static char *rand_text(uint64_t n)
{
	char *s = vt_malloc(n + 1);
	for (uint64_t i = 0; i < n; i++) {
		s[i] = (char) (vt_chance(1, 10) ? 1 + vt_below(255) : 'a' + vt_below(26));
	}
	s[n] = 0;
	return s;
}

#if MODE == 1
/* ------------------------------------------------------------------ */
enum { K8, K16, K32, K64, KBOOL, KDBL, KSTR, KNULL, KSTRLEN, KFMT, KBLOB, KRAW, KN };
static const char *kn[] = {"8", "16", "32", "64", "bool", "double", "str", "null", "str_len", "fmt", "blob", "raw"};
struct item {
	int kind;
	uint64_t v;
	unsigned char *p;
	uint64_t n;
	uint64_t enc;
};
static struct item *q;
static size_t qh, qt, qc;

static struct sc_buf bufs[2], *b;
static uint64_t mr, mw; /* model positions; mb holds [0,mw) */

static void check_bytes(const char *after)
{
	VT_CHECK(sc_buf_valid(b), "buffer invalid after %s", after);
	VT_CHECK(sc_buf_rpos(b) == mr && sc_buf_wpos(b) == mw, "after %s positions are %" PRIu64 "/%" PRIu64 ", expected %" PRIu64 "/%" PRIu64, after,
		 sc_buf_rpos(b), sc_buf_wpos(b), mr, mw);
	VT_CHECK(sc_buf_size(b) == mw - mr, "size after %s", after);
	VT_CHECK(sc_buf_cap(b) >= mw && sc_buf_quota(b) == sc_buf_cap(b) - mw, "quota after %s", after);
	VT_CHECK(mw == 0 || memcmp((unsigned char *) sc_buf_at(b, 0) + mr, mb + mr, mw - mr) == 0, "stored bytes differ after %s", after);
}

static void put_one(bool fixed)
{
	struct item it = {0};
	unsigned char enc[8], *pay = NULL;
	uint64_t room = sc_buf_quota(b), max = fixed ? (room > 40 ? room - 40 : 0) : vast ? 200000 : vt_chance(1, 40) ? 30000 : 3000;
	uint64_t adv = 0;
	max = max > 200000 ? 200000 : max;
	int hd = 0; /* scalar bytes, then pay[0..n) then term */
	bool term = false;

	it.kind = (int) vt_below(KN);
	it.v = vt_edge64();
	if (fixed && room < 48) {
		return;
	}
	switch (it.kind) {
	case K8: it.v = (uint8_t) it.v; sc_buf_put_8(b, (uint8_t) it.v); hd = 1; adv = sc_buf_8_len((uint8_t) it.v); break;
	case K16: it.v = (uint16_t) it.v; sc_buf_put_16(b, (uint16_t) it.v); hd = 2; adv = sc_buf_16_len((uint16_t) it.v); break;
	case K32: it.v = (uint32_t) it.v; sc_buf_put_32(b, (uint32_t) it.v); hd = 4; adv = sc_buf_32_len((uint32_t) it.v); break;
	case K64: sc_buf_put_64(b, it.v); hd = 8; adv = sc_buf_64_len(it.v); break;
	case KBOOL: it.v &= 1; sc_buf_put_bool(b, it.v); hd = 1; adv = sc_buf_bool_len(it.v); break;
	case KDBL: {
		double d;
		if (vt_chance(1, 2)) {
			static const double sp[] = {0.0, -0.0, 1.5, -1e308, 5e-324, 1.0 / 3};
			d = sp[vt_below(6)];
			memcpy(&it.v, &d, 8);
		}
		if (vt_chance(1, 10)) {
			it.v = vt_chance(1, 2) ? 0x7ff0000000000000ull : 0x7ff8000000000123ull;
		}
		memcpy(&d, &it.v, 8);
		sc_buf_put_double(b, d);
		hd = 8;
		adv = sc_buf_double_len(d);
		break;
	}
	case KSTR:
		it.n = pick_len(mw, sc_buf_cap(b), 9, max);
		it.p = (unsigned char *) rand_text(it.n);
		sc_buf_put_str(b, (char *) it.p);
		adv = sc_buf_str_len((char *) it.p);
		it.v = it.n;
		pay = it.p; hd = 8; term = true;
		break;
	case KNULL:
		if (vt_chance(1, 2)) {
			sc_buf_put_str(b, NULL);
		} else {
			sc_buf_put_str_len(b, NULL, vt_below(100));
		}
		it.v = ABSENT; hd = 8;
		adv = sc_buf_str_len(NULL);
		break;
	case KSTRLEN:
		it.n = pick_len(mw, sc_buf_cap(b), 9, max);
		it.p = vt_malloc(it.n ? it.n : 1); /* exact: no terminator behind it */
		for (uint64_t i = 0; i < it.n; i++) {
			it.p[i] = (unsigned char) vt_rnd();
		}
		sc_buf_put_str_len(b, (char *) it.p, it.n);
		it.v = it.n;
		pay = it.p; hd = 8; term = true; adv = 9 + it.n;
		break;
	case KFMT: {
		uint64_t n = pick_len(mw, sc_buf_cap(b), 9 + (vt_chance(1, 2) ? 4 : 0), max);
		char *t = rand_text(n);
		int k = (int) vt_range(-99, 999), form = (int) vt_below(5);
		uint64_t sz = n + 100;
		it.p = vt_malloc(sz);
		switch (form) {
		case 0: snprintf((char *) it.p, sz, "%s", t); sc_buf_put_fmt(b, "%s", t); break;
		case 1: snprintf((char *) it.p, sz, "%d-%s", k, t); sc_buf_put_fmt(b, "%d-%s", k, t); break;
		case 2: snprintf((char *) it.p, sz, "%s%%%c%5d", t, 'x', k); sc_buf_put_fmt(b, "%s%%%c%5d", t, 'x', k); break;
		case 3: snprintf((char *) it.p, sz, "%.*s|%llx", (int) n / 2, t, (unsigned long long) it.v); sc_buf_put_fmt(b, "%.*s|%llx", (int) n / 2, t, (unsigned long long) it.v); break;
		default: it.p[0] = 0; sc_buf_put_fmt(b, "%s", ""); break;
		}
		vt_free(t);
		it.n = strlen((char *) it.p);
		it.v = it.n;
		pay = it.p; hd = 8; term = true; adv = 9 + it.n;
		break;
	}
	case KBLOB:
		it.n = pick_len(mw, sc_buf_cap(b), 8, max);
		it.p = vt_malloc(it.n ? it.n : 1);
		for (uint64_t i = 0; i < it.n; i++) {
			it.p[i] = (unsigned char) vt_rnd();
		}
		sc_buf_put_blob(b, it.p, it.n);
		it.v = it.n;
		pay = it.p; hd = 8; adv = sc_buf_blob_len(it.p, it.n);
		break;
	default:
		it.n = pick_len(mw, sc_buf_cap(b), 0, max);
		it.p = vt_malloc(it.n ? it.n : 1);
		for (uint64_t i = 0; i < it.n; i++) {
			it.p[i] = (unsigned char) vt_rnd();
		}
		sc_buf_put_raw(b, it.p, it.n);
		pay = it.p; adv = it.n;
		break;
	}
	vt_log("put %s v=0x%" PRIx64 " n=%" PRIu64 " at %" PRIu64 " cap %" PRIu64, kn[it.kind], it.v, it.n, mw, sc_buf_cap(b));
	need(mw + adv + 16);
	le(enc, it.v, 8);
	memcpy(mb + mw, enc, (size_t) hd);
	if (it.n) {
		memcpy(mb + mw + hd, pay, it.n);
	}
	it.enc = (uint64_t) hd + it.n + term;
	if (term) {
		mb[mw + hd + it.n] = 0;
	}
	VT_CHECK(it.enc == adv, "advertised length of %s is %" PRIu64 ", encoding has %" PRIu64, kn[it.kind], adv, it.enc);
	mw += it.enc;
	check_bytes(kn[it.kind]);
	vt_class(kn[it.kind]);
	/* positional write over it with the same encoding */
	if (hd && !it.p && vt_chance(1, 6)) {
		uint64_t v = vt_edge64(), at = mw - it.enc;
		if (it.kind == KNULL || it.kind == KBOOL) {
			goto push;
		}
		bool here = vt_chance(1, 2);
		if (here) {
			sc_buf_set_wpos(b, at);
		}
		switch (hd) {
		case 1: v = (uint8_t) v; here ? sc_buf_set_8(b, (uint8_t) v) : sc_buf_set_8_at(b, at, (uint8_t) v); break;
		case 2: v = (uint16_t) v; here ? sc_buf_set_16(b, (uint16_t) v) : sc_buf_set_16_at(b, at, (uint16_t) v); break;
		case 4: v = (uint32_t) v; here ? sc_buf_set_32(b, (uint32_t) v) : sc_buf_set_32_at(b, at, (uint32_t) v); break;
		default: here ? sc_buf_set_64(b, v) : sc_buf_set_64_at(b, at, v); break;
		}
		VT_CHECK(sc_buf_wpos(b) == (here ? at : mw), "positional write moved the write position");
		if (here) {
			sc_buf_set_wpos(b, mw);
		}
		le(mb + at, v, hd);
		it.v = v;
		vt_log("set_%d%s(%" PRIu64 ") = 0x%" PRIx64, hd * 8, here ? "" : "_at", at, v);
		check_bytes("positional write");
		vt_class("patched");
	}
	if (it.n && it.p && vt_chance(1, 8)) {
		uint64_t off = vt_below(it.n), l = 1 + vt_below(it.n - off), at = mw - it.n - term + off;
		unsigned char *d = vt_malloc(l);
		for (uint64_t i = 0; i < l; i++) {
			d[i] = (unsigned char) (1 + vt_below(255));
		}
		VT_CHECK(sc_buf_set_data(b, at, d, l) == l, "set_data result");
		memcpy(mb + at, d, l);
		memcpy(it.p + off, d, l);
		vt_free(d);
		check_bytes("set_data");
	}
push:
	if (qt == qc) {
		qc = qc * 2 + 16;
		q = vt_realloc(q, qc * sizeof(*q));
	}
	q[qt++] = it;
}

static void peeks(struct item *it)
{
	uint64_t r = mr;
	bool at = vt_chance(1, 2);
	uint64_t avail = mw - mr;
	if (avail >= 1) {
		VT_CHECK((at ? sc_buf_peek_8_at(b, r) : sc_buf_peek_8(b)) == mb[r], "peek_8");
	}
	if (avail >= 2) {
		VT_CHECK((at ? sc_buf_peek_16_at(b, r) : sc_buf_peek_16(b)) == un(mb + r, 2), "peek_16");
	}
	if (avail >= 4) {
		VT_CHECK((at ? sc_buf_peek_32_at(b, r) : sc_buf_peek_32(b)) == un(mb + r, 4), "peek_32");
	}
	if (avail >= 8) {
		VT_CHECK((at ? sc_buf_peek_64_at(b, r) : sc_buf_peek_64(b)) == un(mb + r, 8), "peek_64");
	}
	if (avail) {
		uint64_t p = r + vt_below(avail), l = vt_below(mw - p + 1);
		unsigned char *d = vt_malloc(l ? l : 1);
		VT_CHECK(sc_buf_peek_data(b, p, d, l) == l, "peek_data result");
		VT_CHECK(memcmp(d, mb + p, l) == 0, "peek_data bytes");
		vt_free(d);
	}
	(void) it;
	check_bytes("peeks");
}

static void get_one(void)
{
	struct item *it = &q[qh++];
	const char *k = kn[it->kind];

	vt_log("get %s at %" PRIu64, k, mr);
	if (vt_chance(1, 4)) {
		peeks(it);
	}
	switch (it->kind) {
	case K8: VT_CHECK(sc_buf_get_8(b) == it->v, "get_8"); break;
	case K16: VT_CHECK(sc_buf_get_16(b) == it->v, "get_16"); break;
	case K32: VT_CHECK(sc_buf_get_32(b) == it->v, "get_32"); break;
	case K64: VT_CHECK(sc_buf_get_64(b) == it->v, "get_64"); break;
	case KBOOL: VT_CHECK(sc_buf_get_bool(b) == (it->v != 0), "get_bool"); break;
	case KDBL: {
		double d = sc_buf_get_double(b);
		VT_CHECK(memcmp(&d, &it->v, 8) == 0, "get_double is not the same bit pattern");
		break;
	}
	case KNULL: VT_CHECK(sc_buf_get_str(b) == NULL, "absent string came back present"); break;
	case KSTR: case KSTRLEN: case KFMT: {
		const char *s = sc_buf_get_str(b);
		VT_CHECK(s != NULL, "string of %" PRIu64 " bytes came back absent", it->n);
		VT_CHECK(memcmp(s, it->p, it->n) == 0 && s[it->n] == 0, "%s of %" PRIu64 " bytes came back as other bytes", k, it->n);
		break;
	}
	default: {
		if (it->kind == KBLOB) {
			VT_CHECK(sc_buf_get_64(b) == it->n, "blob length");
		}
		if (vt_chance(1, 2)) {
			unsigned char *d = vt_malloc(it->n ? it->n : 1);
			sc_buf_get_data(b, d, it->n);
			VT_CHECK(memcmp(d, it->p, it->n) == 0, "get_data bytes");
			vt_free(d);
		} else {
			unsigned char *d = sc_buf_get_blob(b, it->n);
			VT_CHECK(it->n == 0 || (d && memcmp(d, it->p, it->n) == 0), "get_blob bytes");
		}
		break;
	}
	}
	mr += it->enc;
	check_bytes(k);
	vt_free(it->p);
	it->p = NULL;
}

static void model_compact(void)
{
	memmove(mb, mb + mr, mw - mr);
	mw -= mr;
	mr = 0;
}

void vt_case(uint64_t n)
{
	unsigned char *fixed_mem[2] = {NULL, NULL};
	bool fixed = vt_chance(1, 4);
	int which = 0, moves = 0, compacts = 0, shrinks = 0;
	size_t want = (size_t) (vt_chance(1, 10) ? vt_range(100, 800) : vt_range(1, 60)), made = 0;
	uint64_t h = 5, grew = 0;
	unsigned rd = (unsigned) vt_range(10, 60);
	unsigned char *own = NULL;
	uint64_t own_cap = mb_cap;
	qh = qt = 0;
	mr = mw = 0;
	vast = n % 2500 == 77;
#ifdef GIANT
	giant = true;
	fixed = false;
	vt_alloc_limit = 1ull << 40;
#else
	giant = n % 2500 == 78;
	fixed = fixed || giant;
#endif
	if (vast) {
		want = (size_t) vt_range(2, 12);
	}
	if (giant) {
		own = mb;
		mb_cap = G32 + (1u << 25);
		mb = lazy(mb_cap);
		vt_class("past-4-gib");
	}
	for (int i = 0; i < 2; i++) {
		if (giant) {
			uint64_t cap = fixed ? G32 + (1u << 20) : G32 - vt_below(9000);
			if (fixed) {
				fixed_mem[i] = lazy(cap);
				bufs[i] = sc_buf_wrap(fixed_mem[i], cap, SC_BUF_REF);
			} else {
				VT_CHECK(sc_buf_init(&bufs[i], cap), "init");
			}
			VT_CHECK(sc_buf_cap(&bufs[i]) == cap && sc_buf_size(&bufs[i]) == 0 && sc_buf_valid(&bufs[i]), "fresh buffer");
			continue;
		}
		uint64_t cap = fixed ? vast ? 400000 : (uint64_t) vt_range(1000, 60000) : vt_chance(1, 3) ? 0 : vt_chance(1, 2) ? vt_below(64) : vt_size(9000);
		if (fixed) {
			fixed_mem[i] = vt_malloc(cap);
			bufs[i] = sc_buf_wrap(fixed_mem[i], cap, SC_BUF_REF);
		} else if (cap && vt_chance(1, 3)) {
			bufs[i] = sc_buf_wrap(malloc(cap), cap, 0);
		} else {
			VT_CHECK(sc_buf_init(&bufs[i], cap), "init");
		}
		VT_CHECK(sc_buf_cap(&bufs[i]) == cap && sc_buf_size(&bufs[i]) == 0 && sc_buf_valid(&bufs[i]), "fresh buffer");
	}
	b = &bufs[0];
	if (giant) {
		mr = mw = G32 - vt_below(vt_chance(1, 2) ? 40 : 9000) - 9000;
		mr = mw += vt_below(9000);
		mr = mw = mw > sc_buf_cap(b) ? sc_buf_cap(b) : mw;
		sc_buf_mark_write(b, mw);
		sc_buf_mark_read(b, mr);
		check_bytes("mark");
	}
	while (made < want || qh < qt) {
		unsigned r = (unsigned) vt_below(100);
		uint64_t cap = sc_buf_cap(b);
		if (made >= want) {
			rd = 90;
		}
		if (r < rd) {
			if (qh < qt) {
				h = vt_hash(h, 100 + (uint64_t) q[qh].kind);
				get_one();
			} else if (made >= want) {
				break;
			}
		} else if (r < 92 && made < want) {
			size_t t = qt;
			put_one(fixed);
			made++;
			if (qt > t) {
				h = vt_hash(h, 1000 * q[qt - 1].n + (uint64_t) q[qt - 1].kind);
			}
		} else if (r < 94) {
			sc_buf_compact(b);
			model_compact();
			vt_log("compact");
			compacts++;
			check_bytes("compact");
			h = vt_hash(h, 1);
		} else if (r < 95) {
			uint64_t len = vt_chance(1, 2) ? vt_size(20000) : sc_buf_size(b) + vt_below(5000);
			bool ok = sc_buf_shrink(b, len);
			vt_log("shrink(%" PRIu64 ") -> %d", len, ok);
			VT_CHECK(ok, "shrink failed");
			model_compact();
			shrinks += sc_buf_cap(b) < cap;
			check_bytes("shrink");
		} else if (r < 96 && !fixed) {
			uint64_t len = pick_len(mw, cap, 0, 9000);
			VT_CHECK(sc_buf_reserve(b, len), "reserve failed");
			VT_CHECK(sc_buf_quota(b) >= len, "reserve(%" PRIu64 ") left %" PRIu64, len, sc_buf_quota(b));
			check_bytes("reserve");
		} else if (r < 98) {
			/* move everything into the other buffer, at a random place in it */
			struct sc_buf *o = &bufs[which ^ 1];
			uint64_t sz = mw - mr, pre;
			sc_buf_clear(o);
			if (!fixed && vt_chance(2, 3)) {
				VT_CHECK(sc_buf_reserve(o, sz + vt_below(50)), "reserve failed");
			}
			if (sc_buf_quota(o) < sz) {
				continue;
			}
			pre = vt_below(sc_buf_quota(o) - sz + 1);
			pre = giant && fixed && sz < (1u << 20) && vt_chance(1, 2) ? G32 - vt_below(500) : pre > 5000 ? 5000 : pre;
			sc_buf_mark_write(o, pre);
			sc_buf_mark_read(o, pre);
			vt_log("move %" PRIu64 " bytes to the other buffer at %" PRIu64, sz, pre);
			sc_buf_move(o, b);
			VT_CHECK(sc_buf_size(b) == 0 && sc_buf_valid(b), "source not empty after move");
			need(pre + sz + 16);
			memmove(mb + pre, mb + mr, sz);
			mr = pre;
			mw = pre + sz;
			b = o;
			which ^= 1;
			moves++;
			check_bytes("move");
			h = vt_hash(h, 2);
		}
		grew += sc_buf_cap(b) > cap && cap;
	}
	VT_CHECK(sc_buf_size(b) == 0 || qh < qt, "bytes left after reading everything");
	for (; qh < qt; qh++) {
		vt_free(q[qh].p);
	}
	sc_buf_term(&bufs[0]);
	sc_buf_term(&bufs[1]);
	VT_CHECK(vt_live == 0, "%ld blocks left after term", vt_live);
	for (int i = 0; i < 2; i++) {
		if (giant && fixed) {
			munmap(fixed_mem[i], G32 + (1u << 20));
		} else {
			vt_free(fixed_mem[i]);
		}
	}
	if (giant) {
		munmap(mb, G32 + (1u << 25));
		mb = own;
		mb_cap = own_cap;
	}
	if (moves) {
		vt_class("moved");
	}
	if (compacts) {
		vt_class("compacted");
	}
	if (shrinks) {
		vt_class("shrunk");
	}
	if (grew) {
		vt_class("grew");
	}
	vt_class(fixed ? "fixed-storage" : "growable");
	vt_state(h);
	if (vt_want_sample() && want > 10) {
		vt_sample("%s buffer: %zu values written and read back, %d compactions, %d moves, %d shrinks, %" PRIu64 " growths", fixed ? "fixed" : "growable", made, compacts, moves, shrinks, grew);
	}
}
#endif

#if MODE == 2
/* ------------------------------------------------------------------ */
static uint64_t hostile(uint64_t r, uint64_t w, uint64_t cap)
{
	switch (vt_below(8)) {
	case 0: return vt_edge64();
	case 1: return UINT64_MAX - vt_below(20);
	case 2: return 0 - r + vt_below(20) - 10;
	case 3: return w - r + vt_below(5) - 2;
	case 4: return w + vt_below(12) - 10;
	case 5: return cap + vt_below(5) - 2;
	case 6: return ABSENT + vt_below(3) - 1;
	default: return vt_below(w + 3);
	}
}

static bool inside(const void *p, const unsigned char *m, uint64_t w)
{
	return (const unsigned char *) p >= m && (const unsigned char *) p <= m + w;
}

void vt_case(uint64_t n)
{
	uint64_t cap = vt_chance(1, 20) ? 0 : vt_chance(1, 10) ? vt_size(6000) : vt_size(200);
	unsigned char *m = vt_malloc(cap ? cap : 1), *orig;
	uint64_t w = vt_chance(1, 2) ? cap : vt_below(cap + 1), r = 0, h = 3;
	bool err = false, ref = vt_chance(2, 3);
	int errors = 0, strs = 0, hostile_str = 0;
	struct sc_buf bb, *b = &bb;
	giant = n % 20000 == 78;
	vast = n % 20000 == 77;
	uint64_t from = 0;
	if (giant || vast) {
		vt_free(m);
		from = giant ? G32 - vt_below(300) : 65536 - vt_below(300);
		cap = from + 300 + vt_below(300);
		w = vt_chance(1, 2) ? cap : from + vt_below(cap - from);
		ref = ref || giant;
		m = giant ? lazy(cap) : vt_malloc(cap);
		vt_class(giant ? "past-4-gib" : "past-65536");
	}
	if (!ref) {
		vt_free(m);
		m = malloc(cap ? cap : 1);
	}
	for (uint64_t i = giant ? from : 0; i < cap; i++) {
		m[i] = (unsigned char) (vt_chance(1, 2) ? 0 : vt_rnd());
	}
	/* plausible encodings with hostile lengths */
	if (giant || vast) {
		le(m, vt_chance(1, 2) ? from + vt_below(40) - 20 : w - 9 + vt_below(3) - 1, 8);
	}
	for (uint64_t i = from; i + 8 <= cap;) {
		uint64_t len = hostile(i + 8, w, cap);
		if (vt_chance(1, 2)) {
			len = vt_below(20);
		}
		le(m + i, len, 8);
		i += 8 + (len < 40 ? len : 0);
		if (i < cap && vt_chance(2, 3)) {
			m[i] = 0;
		}
		i++;
		if (vt_chance(1, 4)) {
			i += vt_below(10);
		}
	}
	if (giant) {
		orig = lazy(cap);
		memcpy(orig, m, 8);
		memcpy(orig + from, m + from, cap - from);
	} else {
		orig = vt_malloc(cap ? cap : 1);
		memcpy(orig, m, cap);
	}
	if (w == cap && vt_chance(1, 2)) {
		bb = sc_buf_wrap(m, cap, ref ? SC_BUF_READ : SC_BUF_DATA);
	} else {
		bb = sc_buf_wrap(m, cap, ref ? SC_BUF_REF : 0);
		sc_buf_set_wpos(b, w);
	}
	if ((giant || vast) && vt_chance(1, 2)) {
		r = from + vt_below(w - from + 1);
		sc_buf_set_rpos(b, r);
	}
	vt_log("buffer of %" PRIu64 " valid bytes in %" PRIu64 ": %s", w, cap, vt_hex(m, w > 60 ? 60 : w));
	for (int op = (int) vt_range(1, 40); op > 0; op--) {
		int k = (int) vt_below(18), need_n = 0;
		uint64_t pos = r, v = 0, len;
		bool fail = false;
		static const int width[] = {1, 2, 4, 8};
		switch (k) {
		case 0: case 1: case 2: case 3: { /* get */
			need_n = width[k];
			fail = err || w - r < (uint64_t) need_n;
			v = k == 0 ? sc_buf_get_8(b) : k == 1 ? sc_buf_get_16(b) : k == 2 ? sc_buf_get_32(b) : sc_buf_get_64(b);
			vt_log("get_%d -> %" PRIx64, need_n * 8, v);
			VT_CHECK(v == (fail ? 0 : un(orig + r, need_n)), "get_%d yields %" PRIx64, need_n * 8, v);
			r += fail ? 0 : (uint64_t) need_n;
			break;
		}
		case 4: case 5: case 6: case 7: case 8: case 9: { /* peek_at */
			int j = k & 3;
			need_n = width[j];
			if (k >= 6) {
				pos = hostile(r, w, cap);
			}
			fail = err || pos > w || w - pos < (uint64_t) need_n;
			if (k < 6 && vt_chance(1, 2)) {
				v = j == 0 ? sc_buf_peek_8(b) : j == 1 ? sc_buf_peek_16(b) : j == 2 ? sc_buf_peek_32(b) : sc_buf_peek_64(b);
			} else {
				v = j == 0 ? sc_buf_peek_8_at(b, pos) : j == 1 ? sc_buf_peek_16_at(b, pos) : j == 2 ? sc_buf_peek_32_at(b, pos) : sc_buf_peek_64_at(b, pos);
			}
			vt_log("peek_%d_at(%" PRIu64 ") -> %" PRIx64, need_n * 8, pos, v);
			VT_CHECK(v == (fail ? 0 : un(orig + pos, need_n)), "peek_%d at %" PRIu64 " yields %" PRIx64, need_n * 8, pos, v);
			break;
		}
		case 10: { /* peek_data */
			unsigned char *d;
			pos = hostile(r, w, cap);
			len = vt_chance(1, 2) && pos <= w ? w - pos + vt_below(3) - 1 : vt_below(w + 20);
			if (len > 10000) {
				len = 8;
			}
			d = vt_malloc(len ? len : 1);
			memset(d, 0xa5, len);
			fail = err || pos > w || len > w - pos;
			v = sc_buf_peek_data(b, pos, d, len);
			vt_log("peek_data(%" PRIu64 ", %" PRIu64 ") -> %" PRIu64, pos, len, v);
			VT_CHECK(v == (fail ? 0 : len), "peek_data(%" PRIu64 ",%" PRIu64 ") returned %" PRIu64, pos, len, v);
			for (uint64_t i = 0; i < len; i++) {
				VT_CHECK(d[i] == (fail ? 0 : orig[pos + i]), "peek_data copied wrong bytes");
			}
			vt_free(d);
			break;
		}
		case 11: { /* get_data */
			unsigned char *d;
			len = vt_chance(1, 2) ? w - r + vt_below(3) - 1 : vt_below(w + 20);
			if (len > 10000) {
				len = 8;
			}
			d = vt_malloc(len ? len : 1);
			memset(d, 0xa5, len);
			fail = err || len > w - r;
			sc_buf_get_data(b, d, len);
			vt_log("get_data(%" PRIu64 ")", len);
			for (uint64_t i = 0; i < len && !err; i++) {
				VT_CHECK(d[i] == (fail ? 0 : orig[r + i]), "get_data copied wrong bytes");
			}
			vt_free(d);
			if (err && len <= w - r) {
				goto resync;
			}
			r += fail ? 0 : len;
			break;
		}
		case 12: case 13: { /* get_blob */
			len = hostile(r, w, cap);
			unsigned char *p = sc_buf_get_blob(b, len);
			vt_log("get_blob(%" PRIu64 ") -> %s", len, p ? "data" : "NULL");
			fail = len > w - r;
			VT_CHECK(!p || (!fail && p == m + r), "get_blob(%" PRIu64 ") with %" PRIu64 " available returned memory outside the data", len, w - r);
			if (err && len != 0) {
				goto resync;
			}
			VT_CHECK(fail || len == 0 || p, "get_blob(%" PRIu64 ") with %" PRIu64 " available returned NULL", len, w - r);
			r += fail ? 0 : len;
			break;
		}
		case 14: case 15: { /* get_str */
			uint64_t avail = w - r, l = avail >= 8 ? un(orig + r, 8) : 0;
			const char *s = sc_buf_get_str(b);
			vt_log("get_str len=%" PRIu64 " avail=%" PRIu64 " -> %s", l, avail, s ? vt_quote(s, strlen(s) > 20 ? 20 : strlen(s)) : "NULL");
			strs++;
			if (err) {
				VT_CHECK(s == NULL, "get_str on an invalid buffer returned data");
				VT_CHECK(sc_buf_rpos(b) == r, "get_str on an invalid buffer moved the read position");
				break;
			}
			if (avail < 8) {
				fail = true;
				VT_CHECK(s == NULL, "get_str of a truncated length returned data");
			} else if (l == ABSENT) {
				VT_CHECK(s == NULL, "absent string returned data");
				r += 8;
			} else if (l >= avail - 8 || orig[r + 8 + l] != 0) {
				fail = true;
				hostile_str++;
				VT_CHECK(s == NULL, "get_str returned a string of %" PRIu64 " bytes that is not inside the %" PRIu64 " bytes available", l, avail);
				VT_CHECK(sc_buf_rpos(b) == r || sc_buf_rpos(b) == r + 8, "failed get_str moved the read position past the length");
				r = sc_buf_rpos(b);
			} else {
				VT_CHECK((const unsigned char *) s == m + r + 8, "get_str returned a wrong address");
				VT_CHECK(inside(s + strlen(s) + 1, m, w), "string runs out of the data");
				r += 8 + l + 1;
			}
			break;
		}
		case 16: /* set_rpos */
			pos = hostile(r, w, cap);
			fail = pos > w;
			sc_buf_set_rpos(b, pos);
			vt_log("set_rpos(%" PRIu64 ")", pos);
			r = fail ? r : pos;
			break;
		default:
			if (vt_chance(1, 3)) {
				sc_buf_clear(b);
				VT_CHECK(sc_buf_valid(b) && sc_buf_size(b) == 0, "clear");
				sc_buf_set_wpos(b, w);
				vt_log("clear, set_wpos(%" PRIu64 ")", w);
				r = 0;
				err = false;
			} else {
				uint8_t x = w > r ? orig[r] : 0;
				bool g = sc_buf_get_bool(b);
				fail = err || w == r;
				VT_CHECK(fail ? !g : g == (x != 0), "get_bool");
				r += !fail;
			}
			break;
		}
		if (fail && !err) {
			errors++;
			err = true;
		}
		VT_CHECK(sc_buf_valid(b) == !err, "buffer says valid=%d, expected %d", sc_buf_valid(b), !err);
		VT_CHECK(sc_buf_rpos(b) == r && sc_buf_wpos(b) == w, "positions %" PRIu64 "/%" PRIu64 ", expected %" PRIu64 "/%" PRIu64, sc_buf_rpos(b), sc_buf_wpos(b), r, w);
		h = vt_hash(h, (uint64_t) k * 8 + fail * 4 + err * 2);
		continue;
	resync:
		VT_CHECK(!sc_buf_valid(b), "invalid buffer became valid again");
		VT_CHECK(sc_buf_rpos(b) >= r && sc_buf_rpos(b) <= w && sc_buf_wpos(b) == w, "positions out of range");
		r = sc_buf_rpos(b);
	}
	VT_CHECK(giant || memcmp(m, orig, cap) == 0, "reading changed the data");
	VT_CHECK(!giant || (memcmp(m, orig, 4096) == 0 && memcmp(m + from, orig + from, cap - from) == 0), "reading changed the data");
	sc_buf_term(b);
	VT_CHECK(vt_live == 0, "%ld blocks left", vt_live);
	if (giant) {
		munmap(m, cap);
	} else if (ref) {
		vt_free(m);
	}
	if (errors) {
		vt_class("rejected");
	}
	if (errors > 1) {
		vt_class("rejected-after-clear");
	}
	if (hostile_str) {
		vt_class("hostile-string");
	}
	if (w < cap) {
		vt_class("valid-data-smaller-than-storage");
	}
	vt_state(vt_hash(h, w));
	if (vt_want_sample() && errors && w > 10) {
		vt_sample("%" PRIu64 " valid bytes in %" PRIu64 ", beginning %s: %d rejected reads, %d string reads (%d hostile)", w, cap, vt_hex(orig, w > 16 ? 16 : w), errors, strs, hostile_str);
	}
	if (giant) {
		munmap(orig, cap);
	} else {
		vt_free(orig);
	}
}
#endif

#if MODE == 3
/* ------------------------------------------------------------------ */
struct mbuf {
	struct sc_buf b;
	unsigned char *m; /* model */
	uint64_t mcap;
	uint64_t r, w;
	uint64_t limit;
	bool ref, err;
	unsigned char *blk, *mem;
	uint64_t pad;
};
static struct mbuf B[2];
static uint64_t hist;
static int n_fail, n_grow, n_alloc, n_exact, n_huge, n_move, n_shrink;

static void mneed(struct mbuf *x, uint64_t n)
{
	if (n > x->mcap) {
		x->mcap = n * 2 + 64;
		x->m = vt_realloc(x->m, x->mcap);
	}
}

static void inv(struct mbuf *x, const char *op)
{
	struct sc_buf *b = &x->b;
	VT_CHECK(sc_buf_rpos(b) <= sc_buf_wpos(b) && sc_buf_wpos(b) <= sc_buf_cap(b), "%s: positions %" PRIu64 " %" PRIu64 " capacity %" PRIu64, op, sc_buf_rpos(b), sc_buf_wpos(b), sc_buf_cap(b));
	VT_CHECK(sc_buf_valid(b) == !x->err, "%s: valid=%d, expected %d", op, sc_buf_valid(b), !x->err);
	VT_CHECK(sc_buf_rpos(b) == x->r && sc_buf_wpos(b) == x->w, "%s: positions %" PRIu64 "/%" PRIu64 ", expected %" PRIu64 "/%" PRIu64, op, sc_buf_rpos(b), sc_buf_wpos(b), x->r, x->w);
	VT_CHECK(x->w == 0 || memcmp(b->mem, x->m, x->w) == 0, "%s: bytes before the write position changed", op);
	if (x->ref) {
		VT_CHECK(b->mem == x->mem && sc_buf_cap(b) == x->pad, "%s: wrapped storage was replaced", op);
	}
}

/* after an operation that may have failed: r/w taken over, prefix must stay */
static void failed(struct mbuf *x, const char *op, uint64_t oldw)
{
	struct sc_buf *b = &x->b;
	VT_CHECK(!sc_buf_valid(b), "%s: failed without marking the buffer invalid", op);
	x->err = true;
	n_fail++;
	VT_CHECK(sc_buf_wpos(b) >= oldw && sc_buf_wpos(b) <= sc_buf_cap(b), "%s: failed write moved the write position from %" PRIu64 " to %" PRIu64, op, oldw, sc_buf_wpos(b));
	mneed(x, sc_buf_wpos(b));
	x->w = sc_buf_wpos(b);
	if (x->w > oldw) {
		memcpy(x->m + oldw, b->mem + oldw, x->w - oldw);
	}
	inv(x, op);
}

/* may/must this many more bytes be stored? */
enum { NO, MAYBE, YES };
static int expect(struct mbuf *x, uint64_t len)
{
	uint64_t cap = sc_buf_cap(&x->b);
	if (x->err) {
		return NO;
	}
	if (len <= cap - x->w) {
		return YES;
	}
	if (x->ref || len > UINT64_MAX - 8192 - cap || x->w + len > x->limit) {
		return NO;
	}
	if (cap + len + 4095 <= x->limit && cap + len < (1u << 26)) {
		return YES;
	}
	return MAYBE;
}

static void grew_ok(struct mbuf *x, uint64_t oldcap, const char *op)
{
	if (sc_buf_cap(&x->b) != oldcap) {
		VT_CHECK(!x->ref, "%s: fixed buffer resized", op);
		VT_CHECK(sc_buf_cap(&x->b) <= x->limit, "%s: capacity %" PRIu64 " above the limit %" PRIu64, op, sc_buf_cap(&x->b), x->limit);
		n_grow++;
	}
}

/* one put of enc[0..n) performed by the caller; verify */
static void put_done(struct mbuf *x, const char *op, int want, uint64_t f0, uint64_t oldcap, const unsigned char *enc, uint64_t n)
{
	struct sc_buf *b = &x->b;
	uint64_t oldw = x->w;
	bool refused = vt_alloc_failed != f0;
	vt_fail_off();
	grew_ok(x, oldcap, op);
	n_alloc += refused;
	if (n == oldcap - oldw && n) {
		n_exact++;
	}
	if (x->err) { /* invalid stays invalid, and nothing more goes in */
		VT_CHECK(sc_buf_wpos(b) == oldw, "%s: an invalid buffer's write position moves from %" PRIu64 " to %" PRIu64, op, oldw, sc_buf_wpos(b));
		failed(x, op, oldw);
		return;
	}
	if (sc_buf_valid(b)) {
		VT_CHECK(want != NO, "%s: accepted although it cannot fit (%" PRIu64 " bytes, %" PRIu64 " of %" PRIu64 " used, limit %" PRIu64 ")", op, n, oldw, oldcap, x->limit);
		VT_CHECK(!refused, "%s: refused allocation not reported", op);
		mneed(x, oldw + n);
		if (n) {
			memcpy(x->m + oldw, enc, n);
		}
		x->w += n;
		inv(x, op);
	} else {
		VT_CHECK(want != YES || refused, "%s: %" PRIu64 " bytes refused (%" PRIu64 " of %" PRIu64 " used, limit %" PRIu64 ")", op, n, oldw, oldcap, x->limit);
		failed(x, op, oldw);
	}
}

static uint64_t huge(void)
{
	n_huge++;
	switch (vt_below(4)) {
	case 0: return UINT64_MAX - vt_below(10000);
	case 1: return 0 - B[0].w - vt_below(9000) + 10;
	case 2: return (UINT64_MAX - 4096) - vt_below(5) + 2;
	default: return vt_edge64() | (1ull << 40);
	}
}

static void inject(void)
{
	if (vt_chance(1, 12)) {
		vt_fail_nth(1, vt_chance(1, 2));
	}
}

static void put(struct mbuf *x)
{
	struct sc_buf *b = &x->b;
	uint64_t cap = sc_buf_cap(b), f0, max = vast ? 200000 : vt_chance(1, 30) ? 20000 : 1500, n, v = vt_edge64();
	unsigned char *enc = NULL;
	int k = (int) vt_below(10), want;
	static const int wd[] = {1, 2, 4, 8};

	inject();
	f0 = vt_alloc_failed;
	if (k < 4) {
		n = (uint64_t) wd[k];
		enc = vt_malloc(8);
		le(enc, v, 8);
		want = expect(x, n);
		k == 0 ? sc_buf_put_8(b, (uint8_t) v) : k == 1 ? sc_buf_put_16(b, (uint16_t) v) : k == 2 ? sc_buf_put_32(b, (uint32_t) v) : sc_buf_put_64(b, v);
		vt_log("put_%d", wd[k] * 8);
		put_done(x, "put scalar", want, f0, cap, enc, n);
	} else if (k == 4) { /* raw */
		n = pick_len(x->w, cap, 0, max);
		enc = vt_malloc(n ? n : 1);
		memset(enc, (int) v, n);
		want = expect(x, n);
		sc_buf_put_raw(b, enc, n);
		vt_log("put_raw(%" PRIu64 ")", n);
		put_done(x, "put_raw", want, f0, cap, enc, n);
	} else if (k == 5) { /* blob */
		n = pick_len(x->w, cap, 8, max);
		enc = vt_malloc(n + 8);
		memset(enc, (int) v, n + 8);
		le(enc, n, 8);
		unsigned char *src = vt_malloc(n ? n : 1);
		memcpy(src, enc + 8, n);
		want = expect(x, n + 8);
		if (want == YES && n + 8 > cap - x->w) { /* two growth steps */
			want = cap + 8 + 4096 + n + 4095 <= x->limit ? YES : MAYBE;
		}
		sc_buf_put_blob(b, src, n);
		vt_log("put_blob(%" PRIu64 ")", n);
		vt_free(src);
		put_done(x, "put_blob", want, f0, cap, enc, n + 8);
	} else if (k < 9) { /* strings */
		n = pick_len(x->w, cap, 9, max);
		char *t = rand_text(n);
		enc = vt_malloc(n + 9);
		le(enc, n, 8);
		memcpy(enc + 8, t, n + 1);
		want = expect(x, n + 9);
		if (want == YES && n + 9 > cap - x->w) {
			want = cap + 9 + 4096 + n + 8192 <= x->limit ? YES : MAYBE;
		}
		if (k == 6) {
			sc_buf_put_str(b, t);
		} else if (k == 7) {
			sc_buf_put_str_len(b, t, n);
		} else {
			sc_buf_put_fmt(b, "%s", t);
		}
		vt_log("%s(%" PRIu64 ")", k == 6 ? "put_str" : k == 7 ? "put_str_len" : "put_fmt", n);
		vt_free(t);
		put_done(x, k == 6 ? "put_str" : k == 7 ? "put_str_len" : "put_fmt", want, f0, cap, enc, n + 9);
	} else {
		enc = vt_malloc(8);
		double d;
		memcpy(&d, &v, 8);
		le(enc, v, 8);
		want = expect(x, 8);
		sc_buf_put_double(b, d);
		put_done(x, "put_double", want, f0, cap, enc, 8);
	}
	hist = vt_hash(hist, (uint64_t) k * 4 + (uint64_t) want);
	vt_free(enc);
}

static void set_at(struct mbuf *x)
{
	struct sc_buf *b = &x->b;
	uint64_t cap = sc_buf_cap(b), v = vt_edge64(), pos, n;
	int k = (int) vt_below(5);
	static const int wd[] = {1, 2, 4, 8};
	unsigned char enc[8];
	bool fits;
	switch (vt_below(6)) {
	case 0: pos = UINT64_MAX - vt_below(20); break;
	case 1: pos = vt_edge64(); break;
	case 2: pos = cap + vt_below(12) - 9; break;
	case 3: pos = x->w + vt_below(6) - 3; break;
	default: pos = vt_below(cap + 1); break;
	}
	le(enc, v, 8);
	if (k < 4) {
		n = (uint64_t) wd[k];
		fits = pos <= cap && n <= cap - pos;
		if (pos == x->w || vt_chance(1, 8)) {
			pos = x->w;
			fits = n <= cap - pos;
			k == 0 ? sc_buf_set_8(b, (uint8_t) v) : k == 1 ? sc_buf_set_16(b, (uint16_t) v) : k == 2 ? sc_buf_set_32(b, (uint32_t) v) : sc_buf_set_64(b, v);
		} else {
			k == 0 ? sc_buf_set_8_at(b, pos, (uint8_t) v) : k == 1 ? sc_buf_set_16_at(b, pos, (uint16_t) v) : k == 2 ? sc_buf_set_32_at(b, pos, (uint32_t) v) : sc_buf_set_64_at(b, pos, v);
		}
		vt_log("set_%d_at(%" PRIu64 ") cap %" PRIu64, wd[k], pos, cap);
		if (x->err) {
			failed(x, "set_at", x->w);
			return;
		}
	} else {
		n = 1 + vt_below(300);
		unsigned char *d = vt_malloc(n);
		memset(d, (int) v, n);
		if (vt_chance(1, 2) && pos > n) {
			pos -= n;
		}
		fits = pos <= cap && n <= cap - pos;
		uint64_t rc = sc_buf_set_data(b, pos, d, n);
		vt_log("set_data(%" PRIu64 ", %" PRIu64 ") -> %" PRIu64, pos, n, rc);
		if (!x->err) {
			VT_CHECK(rc == (fits ? n : 0), "set_data(%" PRIu64 ",%" PRIu64 ") with capacity %" PRIu64 " returned %" PRIu64, pos, n, cap, rc);
			if (fits) {
				VT_CHECK(memcmp(b->mem + pos, d, n) == 0, "set_data stored other bytes");
				for (uint64_t i = 0; i < n && pos + i < x->w; i++) {
					x->m[pos + i] = d[i];
				}
				inv(x, "set_data");
			} else {
				failed(x, "set_data", x->w);
			}
		} else {
			failed(x, "set_data", x->w);
		}
		vt_free(d);
		return;
	}
	if (fits) {
		VT_CHECK(memcmp(b->mem + pos, enc, n) == 0, "positional write at %" PRIu64 " stored other bytes", pos);
		for (uint64_t i = 0; i < n && pos + i < x->w; i++) {
			x->m[pos + i] = enc[i];
		}
		inv(x, "set_at");
	} else {
		failed(x, "set_at", x->w);
	}
	hist = vt_hash(hist, 50 + (uint64_t) k * 2 + fits);
}

static void model_compact(struct mbuf *x)
{
	memmove(x->m, x->m + x->r, x->w - x->r);
	x->w -= x->r;
	x->r = 0;
}

static void mk(struct mbuf *x)
{
	uint64_t cap = vt_chance(1, 3) ? vt_below(64) : vt_chance(1, 3) ? vt_below(4) * 4096 + vt_below(5) - 2 : vt_size(12000);
	if (vast && vt_chance(1, 2)) {
		cap = (1 + vt_below(3)) * 65536 + vt_below(30) - 15;
	} else if (cap > 20000) {
		cap = 4096;
	}
	x->ref = vt_chance(1, 3);
	x->err = false;
	x->r = x->w = 0;
	x->blk = NULL;
	x->limit = UINT64_MAX - 4096;
	mneed(x, 1);
	bool full = false;
	if (x->ref) {
		bool interior = vt_chance(1, 2);
		x->blk = vt_malloc(cap + (interior ? 64 : 0) + 1);
		/* exact end: the sanitizer guards one side, a pattern the other */
		x->mem = x->blk + (interior ? 64 : 0) + 1;
		memset(x->blk, 0x5c, (size_t) (x->mem - x->blk));
		x->pad = cap;
		if (vt_chance(1, 3)) {
			full = true;
			x->b = sc_buf_wrap(x->mem, cap, SC_BUF_REF | SC_BUF_DATA);
		} else {
			x->b = sc_buf_wrap(x->mem, cap, SC_BUF_REF);
		}
		x->limit = cap;
	} else if (cap && vt_chance(1, 3)) {
		full = vt_chance(1, 2);
		x->mem = malloc(cap);
		x->b = sc_buf_wrap(x->mem, cap, full ? SC_BUF_DATA : 0);
	} else {
		VT_CHECK(sc_buf_init(&x->b, cap), "init");
	}
	if (!x->ref && vt_chance(1, 2)) {
		x->limit = vt_chance(1, 4) ? vt_below(200) : vt_chance(1, 2) ? vt_below(8) * 4096 + vt_below(3) - 1 : vt_size(40000);
		if (x->limit > (1u << 30)) {
			x->limit = 4095;
		}
		if (vast) {
			x->limit = (1 + vt_below(5)) * 65536 + vt_below(20) - 10;
		}
		sc_buf_limit(&x->b, x->limit);
	}
	if (full) { /* the memory handed over is data already */
		mneed(x, cap);
		for (uint64_t i = 0; i < cap; i++) {
			x->m[i] = x->mem[i] = (unsigned char) vt_rnd();
		}
		x->w = cap;
	}
	vt_log("buffer %d: capacity %" PRIu64 "%s%s, limit %" PRIu64, (int) (x - B), cap, x->ref ? " wrapped" : "", full ? " full of data" : "", x->limit);
	inv(x, "init");
}

static void rm(struct mbuf *x)
{
	sc_buf_term(&x->b);
	VT_CHECK(sc_buf_cap(&x->b) == 0 && sc_buf_size(&x->b) == 0 && sc_buf_wpos(&x->b) == 0 && sc_buf_valid(&x->b), "a terminated buffer still holds something");
	if (vt_chance(1, 8)) { /* and a second round on it starts from nothing */
		sc_buf_put_32(&x->b, 0x01020304);
		VT_CHECK(sc_buf_valid(&x->b) && sc_buf_size(&x->b) == 4 && sc_buf_get_32(&x->b) == 0x01020304, "a terminated buffer cannot be used again");
		sc_buf_term(&x->b);
	}
	if (x->ref) {
		for (unsigned char *p = x->blk; p < x->mem; p++) {
			VT_CHECK(*p == 0x5c, "byte before the wrapped storage changed");
		}
		VT_CHECK(x->w == 0 || memcmp(x->mem, x->m, x->w) == 0, "wrapped bytes changed by term");
		vt_free(x->blk);
	}
}

static void texts(void)
{
	struct mbuf *x = &B[0];
	struct sc_buf *b = &x->b;
	int ok = 0, bad = 0;
	mk(x);
	for (int op = (int) vt_range(1, 30); op > 0; op--) {
		uint64_t cap = sc_buf_cap(b), size = x->w - x->r, n, f0;
		uint64_t base = size ? x->w - 1 : x->w;
		n = vt_chance(1, 3) ? vt_below(8) : vt_chance(1, 2) ? cap - base + vt_below(4) - 2 : pick_len(x->w, cap, 1, 3000);
		if (vast && vt_chance(1, 2)) {
			n = 65536 - base % 65536 + vt_below(20) - 10;
		}
		if (n > (vast ? 200000 : 30000)) {
			n = vt_below(100);
		}
		char *t = rand_text(n);
		inject();
		f0 = vt_alloc_failed;
		bool fits = n + 1 <= cap - base, never = x->ref ? !fits : !fits && (base + n + 1 > x->limit);
		bool must = fits || (!x->ref && cap + n + 1 + 4095 <= x->limit);
		switch (vt_below(2)) {
		case 0: sc_buf_put_text(b, "%s", t); break;
		default: {
			int k = (int) (n / 2);
			sc_buf_put_text(b, "%.*s%s", k, t, t + k);
			break;
		}
		}
		bool refused = vt_alloc_failed != f0;
		vt_fail_off();
		n_alloc += refused;
		vt_log("put_text(%" PRIu64 " bytes) with %" PRIu64 "+%" PRIu64 " of %" PRIu64 " used -> valid %d", n, x->r, size, cap, sc_buf_valid(b));
		grew_ok(x, cap, "put_text");
		hist = vt_hash(hist, n * 4 + fits);
		if (n + 1 == cap - base) {
			n_exact++;
		}
		if (sc_buf_valid(b)) {
			VT_CHECK(!never && !refused, "text of %" PRIu64 " bytes accepted although it cannot fit", n);
			mneed(x, base + n + 1);
			memcpy(x->m + base, t, n + 1);
			x->w = base + n + 1;
			inv(x, "put_text");
			ok++;
		} else {
			VT_CHECK(!must || refused, "text of %" PRIu64 " bytes refused (%" PRIu64 " of %" PRIu64 " used, limit %" PRIu64 ")", n, base, cap, x->limit);
			VT_CHECK(sc_buf_size(b) == 0, "refused text left %" PRIu64 " bytes", sc_buf_size(b));
			VT_CHECK(sc_buf_rpos(b) <= sc_buf_wpos(b) && sc_buf_wpos(b) <= sc_buf_cap(b), "refused text left positions %" PRIu64 "/%" PRIu64, sc_buf_rpos(b), sc_buf_wpos(b));
			sc_buf_clear(b);
			VT_CHECK(sc_buf_valid(b), "clear");
			x->r = x->w = 0;
			bad++;
			n_fail++;
		}
		vt_free(t);
		if (x->w > x->r && vt_chance(1, 6)) {
			uint64_t d = vt_below(x->w - x->r + 1);
			sc_buf_mark_read(b, d);
			x->r += d;
			vt_log("mark_read(%" PRIu64 ")", d);
		}
		if (vt_chance(1, 10)) {
			sc_buf_compact(b);
			model_compact(x);
			inv(x, "compact");
		}
	}
	rm(x);
	vt_class("text");
	if (ok && bad) {
		vt_class("text.mixed");
	}
}

void vt_case(uint64_t n)
{
	hist = 9;
	vast = n % 5000 == 77 || n % 5000 == 79;
	if (vast && n % 5000 == 79) {
		texts();
		goto out;
	}
	n_fail = n_grow = n_alloc = n_exact = n_huge = n_move = n_shrink = 0;
	if (vt_chance(1, 5)) {
		texts();
		goto out;
	}
	mk(&B[0]);
	mk(&B[1]);
	for (int op = (int) vt_range(3, 80); op > 0; op--) {
		struct mbuf *x = &B[vt_below(2)], *y = x == &B[0] ? &B[1] : &B[0];
		struct sc_buf *b = &x->b;
		uint64_t cap = sc_buf_cap(b), f0, len;
		bool ok, refused;
		switch (vt_below(20)) {
		default: put(x); break;
		case 9: case 10: set_at(x); break;
		case 11: { /* reserve */
			int want;
			len = vt_chance(1, 3) ? huge() : pick_len(x->w, cap, 0, 20000);
			want = expect(x, len);
			if (x->err) {
				break;
			}
			inject();
			f0 = vt_alloc_failed;
			ok = sc_buf_reserve(b, len);
			refused = vt_alloc_failed != f0;
			vt_fail_off();
			n_alloc += refused;
			vt_log("reserve(%" PRIu64 ") -> %d", len, ok);
			grew_ok(x, cap, "reserve");
			hist = vt_hash(hist, 100 + ok);
			if (ok) {
				VT_CHECK(want != NO && !refused, "reserve(%" PRIu64 ") accepted (%" PRIu64 " of %" PRIu64 " used, limit %" PRIu64 ")", len, x->w, cap, x->limit);
				VT_CHECK(sc_buf_quota(b) >= len, "reserve(%" PRIu64 ") left %" PRIu64, len, sc_buf_quota(b));
				inv(x, "reserve");
			} else {
				VT_CHECK(want != YES || refused, "reserve(%" PRIu64 ") refused (%" PRIu64 " of %" PRIu64 " used, limit %" PRIu64 ")", len, x->w, cap, x->limit);
				VT_CHECK(sc_buf_cap(b) == cap && sc_buf_wpos(b) == x->w, "refused reserve changed the buffer");
				failed(x, "reserve", x->w);
			}
			break;
		}
		case 12: { /* shrink */
			len = vt_chance(1, 8) ? huge() : vt_chance(1, 3) ? cap - vt_below(5) : vt_size(20000);
			inject();
			f0 = vt_alloc_failed;
			ok = sc_buf_shrink(b, len);
			refused = vt_alloc_failed != f0;
			vt_fail_off();
			vt_log("shrink(%" PRIu64 ") -> %d, capacity %" PRIu64 " -> %" PRIu64, len, ok, cap, sc_buf_cap(b));
			VT_CHECK(ok == !refused, "shrink returned %d with refused=%d", ok, refused);
			model_compact(x);
			if (!ok) {
				x->err = true;
			}
			VT_CHECK(sc_buf_cap(b) <= cap, "shrink grew the buffer from %" PRIu64 " to %" PRIu64, cap, sc_buf_cap(b));
			VT_CHECK(sc_buf_cap(b) >= len || sc_buf_cap(b) == cap, "shrink(%" PRIu64 ") of %" PRIu64 " left %" PRIu64, len, cap, sc_buf_cap(b));
			if (!x->ref && ok && len < cap && x->w < len && (len + 4095) / 4096 * 4096 < cap) {
				VT_CHECK(sc_buf_cap(b) < cap, "shrink(%" PRIu64 ") with %" PRIu64 " bytes kept the capacity %" PRIu64, len, x->w, cap);
			}
			n_shrink += sc_buf_cap(b) < cap;
			inv(x, "shrink");
			hist = vt_hash(hist, 110 + ok);
			break;
		}
		case 13:
			sc_buf_compact(b);
			vt_log("compact");
			model_compact(x);
			inv(x, "compact");
			break;
		case 14: case 15: { /* move x <- y */
			uint64_t sz = y->w - y->r, quota = cap - x->w, c, d;
			vt_log("move %" PRIu64 " into %" PRIu64 " free", sz, quota);
			sc_buf_move(b, &y->b);
			c = sc_buf_wpos(b) - x->w;
			d = sc_buf_rpos(&y->b) - y->r;
			VT_CHECK(sc_buf_wpos(b) >= x->w && c == d, "move took %" PRIu64 " bytes from the source and stored %" PRIu64, d, c);
			VT_CHECK(x->err || c == (sz < quota ? sz : quota), "move transferred %" PRIu64 " of %" PRIu64 " bytes with %" PRIu64 " free", c, sz, quota);
			VT_CHECK(sc_buf_cap(b) == cap, "move resized the destination");
			VT_CHECK(c <= sz, "move took more bytes than there are");
			mneed(x, x->w + c);
			if (c) {
				memcpy(x->m + x->w, y->m + y->r, c);
			}
			x->w += c;
			y->r += c;
			if (x->err) {
				n_fail++;
			}
			n_move += c > 0;
			inv(x, "move (destination)");
			inv(y, "move (source)");
			hist = vt_hash(hist, 120 + (c < sz));
			break;
		}
		case 16: /* positions */
			len = vt_chance(1, 3) ? huge() : vt_below(x->w + 3);
			if (vt_chance(1, 2)) {
				sc_buf_set_rpos(b, len);
				vt_log("set_rpos(%" PRIu64 ")", len);
				if (len <= x->w) {
					x->r = len;
				} else {
					x->err = true;
				}
			} else {
				len = vt_chance(1, 2) ? len : cap + vt_below(3) - 1;
				if (len < x->r) {
					break;
				}
				sc_buf_set_wpos(b, len);
				vt_log("set_wpos(%" PRIu64 ") cap %" PRIu64, len, cap);
				if (len <= cap) {
					uint64_t old = x->w;
					VT_CHECK(sc_buf_wpos(b) == len, "set_wpos(%" PRIu64 ")", len);
					mneed(x, len);
					x->w = len;
					if (len > old) {
						memset(b->mem + old, 0x77, len - old);
						memset(x->m + old, 0x77, len - old);
					}
				} else {
					x->err = true;
				}
			}
			inv(x, "set position");
			break;
		case 17: /* caller reads or writes the memory itself */
			len = vt_below(sc_buf_quota(b) + 1);
			len = len > 3000 ? 3000 : len;
			VT_CHECK(sc_buf_wbuf(b) == b->mem + x->w && sc_buf_rbuf(b) == b->mem + x->r, "wbuf/rbuf");
			if (len && vt_chance(1, 2)) {
				mneed(x, x->w + len);
				memset(sc_buf_wbuf(b), (int) len, len);
				memset(x->m + x->w, (int) len, len);
				sc_buf_mark_write(b, len);
				x->w += len;
			} else {
				len = vt_below(x->w - x->r + 1);
				sc_buf_mark_read(b, len);
				x->r += len;
			}
			inv(x, "mark");
			break;
		case 18: /* read something */
			len = vt_below(x->w - x->r + 1);
			if (!x->err && len) {
				unsigned char *d = vt_malloc(len);
				sc_buf_get_data(b, d, len);
				VT_CHECK(memcmp(d, x->m + x->r, len) == 0, "get_data returned other bytes than stored");
				x->r += len;
				vt_free(d);
				inv(x, "get_data");
			}
			break;
		case 19:
			if (x->err || vt_chance(1, 6)) {
				sc_buf_clear(b);
				vt_log("clear");
				x->r = x->w = 0;
				x->err = false;
				inv(x, "clear");
				VT_CHECK(sc_buf_cap(b) == cap, "clear changed the capacity");
			} else if (!x->ref && vt_chance(1, 3)) {
				x->limit = vast ? 65536 * (1 + vt_below(4)) + vt_below(20) : vt_size(40000);
				sc_buf_limit(b, x->limit);
				vt_log("limit(%" PRIu64 ")", x->limit);
			}
			break;
		}
	}
	rm(&B[0]);
	rm(&B[1]);
out:
	VT_CHECK(vt_live == 0, "%ld blocks left after term", vt_live);
	if (n_fail) {
		vt_class("refused-write");
	}
	if (n_grow) {
		vt_class("grew");
	}
	if (n_alloc) {
		vt_class("refused-allocation");
	}
	if (n_exact) {
		vt_class("exact-fit");
	}
	if (n_huge) {
		vt_class("huge-length");
	}
	if (n_move) {
		vt_class("moved");
	}
	if (n_shrink) {
		vt_class("shrunk");
	}
	vt_state(hist);
	if (vt_want_sample() && n_grow && n_fail) {
		vt_sample("%d growths, %d refused writes, %d refused allocations, %d exact fits, %d huge lengths, %d moves, %d shrinks", n_grow, n_fail, n_alloc, n_exact, n_huge, n_move, n_shrink);
	}
}
#endif
