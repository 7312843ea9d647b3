/* H01: sc_heap against a multiset. */
#include "vt.h"
#include "sc_heap.h"

#ifdef LIMITED
#define LIMIT ((size_t) 100)
#else
#define LIMIT SIZE_MAX
#endif

struct ent {
	int64_t key;
	int state; /* 0 unused, 1 pending, 2 popped, 3 cleared */
};
static struct ent *ents;
static size_t n_ents;
/* model: pending keys in a plain binary heap of our own would repeat the code
 * under test; keep them sorted instead. */
static int64_t *sorted;
static size_t n_pend;

static size_t lower(int64_t k)
{
	size_t lo = 0, hi = n_pend;
	while (lo < hi) {
		size_t mid = (lo + hi) / 2;
		if (sorted[mid] > k) { /* descending: smallest at the end */
			lo = mid + 1;
		} else {
			hi = mid;
		}
	}
	return lo;
}

static void model_add(int64_t k)
{
	size_t p = lower(k);
	memmove(&sorted[p + 1], &sorted[p], (n_pend - p) * sizeof(*sorted));
	sorted[p] = k;
	n_pend++;
}

static void check_ent(struct sc_heap_data *d, const char *who, bool take)
{
	int64_t min = sorted[n_pend - 1];
	VT_CHECK(d != NULL, "%s returned nothing with %zu pending", who, n_pend);
	VT_CHECK(d->key == min, "%s returned key %" PRId64 ", smallest pending is %" PRId64, who, d->key, min);
	struct ent *e = d->data;
	VT_CHECK(e >= ents && e < ents + n_ents, "%s returned foreign data", who);
	VT_CHECK(e->key == d->key, "%s returned data of key %" PRId64 " with key %" PRId64, who, e->key, d->key);
	VT_CHECK(e->state == 1, "%s returned an entry that is not pending (state %d)", who, e->state);
	if (take) {
		e->state = 2;
		n_pend--;
	}
}

static int descending(const void *x, const void *y)
{
	int64_t a = *(const int64_t *) x, b = *(const int64_t *) y;
	return a > b ? -1 : a < b;
}

void vt_case(uint64_t cn)
{
	struct sc_heap heap, *hp = &heap;
	bool big = vt_chance(1, 40), vast = LIMIT == SIZE_MAX && cn % 4000 == 77;
	uint64_t nops = big ? (uint64_t) vt_range(3000, 20000) : (uint64_t) vt_range(3, 300);
	uint64_t h = 3;
	unsigned fail_rate = vt_chance(1, 2) ? 0 : (unsigned) vt_range(1, 6);
	int keymode = (int) vt_below(7);
	unsigned addp = (unsigned) vt_range(35, 80);
	size_t cap = vt_chance(1, 3) ? 0 : vt_chance(1, 2) ? vt_below(6) : vt_size(300);
	int refused = 0, grown = 0, dup = 0, pops = 0;
	size_t high = 0;
	int64_t ctr = 0;

	if (vt_chance(1, 15) && cap > 0) {
		vt_fail_nth(1, false);
		VT_CHECK(!sc_heap_init(hp, cap), "refused initialisation not reported");
		vt_fail_off();
		VT_CHECK(sc_heap_size(hp) == 0, "size after refused init");
		sc_heap_term(hp);
		VT_CHECK(vt_live == 0, "blocks left");
		vt_class("init.refused");
	}
	if (LIMIT == SIZE_MAX && vt_chance(1, 15)) {
		bool ok = sc_heap_init(hp, SIZE_MAX / (1 + vt_below(40)) - vt_below(3));
		VT_CHECK(!ok, "impossible capacity accepted");
		VT_CHECK(sc_heap_size(hp) == 0, "size after refused init");
		sc_heap_term(hp);
		vt_class("init.huge");
	}
	if (LIMIT != SIZE_MAX && cap > LIMIT) {
		VT_CHECK(!sc_heap_init(hp, cap), "capacity above the maximum accepted");
		sc_heap_term(hp);
		cap = LIMIT;
	}
	memset(hp, 0xa5, sizeof(*hp));
	VT_CHECK(sc_heap_init(hp, cap), "init(%zu) failed", cap);
	vt_log("init(%zu)", cap);
	size_t pre = vast ? 65536 + vt_below(20000) : 0;
	ents = vt_malloc(sizeof(*ents) * (pre + nops * 4 + 16));
	sorted = vt_malloc(sizeof(*sorted) * (pre + nops * 4 + 16));
	n_ents = n_pend = 0;
	if (vast) { /* more elements than 16 bits count */
		int64_t span = vt_chance(1, 2) ? 1000 : INT64_MAX;
		nops = nops > 300 ? 300 : nops;
		for (size_t i = 0; i < pre; i++) {
			ents[i].key = (int64_t) vt_rnd() % span;
			ents[i].state = 1;
			sorted[i] = ents[i].key;
			VT_CHECK(sc_heap_add(hp, ents[i].key, &ents[i]), "add refused although memory was available");
		}
		n_ents = n_pend = pre;
		qsort(sorted, pre, sizeof(*sorted), descending);
		vt_log("%zu elements added", pre);
		vt_class("past-65536");
	}
	for (uint64_t op = 0; op < nops; op++) {
		unsigned r = (unsigned) vt_below(100);
		if (big) {
			addp = (op / 2000) % 2 ? 25 : 90;
		}
		if (r < addp) {
			int64_t k;
			uint64_t f0 = vt_alloc_failed, a0 = vt_allocs;
			switch (keymode) {
			case 0: k = vt_range(0, 3); break;
			case 1: k = (int64_t) vt_rnd(); break;
			case 2: k = (int64_t) vt_edge64(); break;
			case 3: k = ctr++; break;
			case 4: k = -(ctr++); break;
			case 5: k = vt_chance(1, 2) ? INT64_MIN : INT64_MAX; break;
			default: k = vt_range(-20, 20); break;
			}
			if (fail_rate && vt_chance(fail_rate, 10)) {
				vt_fail_nth(1, false);
			}
			ents[n_ents].key = k;
			ents[n_ents].state = 0;
			n_ents++;
			bool ok = sc_heap_add(hp, k, &ents[n_ents - 1]);
			vt_fail_off();
			vt_log("add(%" PRId64 ") -> %d", k, ok);
			if (!ok) {
				refused++;
				n_ents--;
				vt_class("add.refused");
				VT_CHECK(vt_alloc_failed != f0 || (LIMIT != SIZE_MAX && n_pend * 4 > LIMIT), "add refused although memory was available");
				h = vt_hash(h, 91);
			} else {
				VT_CHECK(vt_alloc_failed == f0, "refused growth not reported");
				size_t p = lower(k);
				dup += p < n_pend && sorted[p] == k;
				ents[n_ents - 1].state = 1;
				model_add(k);
				grown += vt_allocs != a0;
				h = vt_hash(h, 1);
			}
		} else if (r < addp + (100 - addp) * 6 / 10) {
			struct sc_heap_data *d = sc_heap_pop(hp);
			vt_log("pop");
			if (n_pend == 0) {
				VT_CHECK(d == NULL, "pop of an empty heap returned something");
			} else {
				check_ent(d, "pop", true);
				pops++;
			}
			h = vt_hash(h, 2);
		} else if (r < 97) {
			struct sc_heap_data *d = sc_heap_peek(hp);
			if (n_pend == 0) {
				VT_CHECK(d == NULL, "peek of an empty heap returned something");
			} else {
				check_ent(d, "peek", false);
			}
			h = vt_hash(h, 3);
		} else if (r == 97 && vt_chance(1, 3)) {
			sc_heap_clear(hp);
			vt_log("clear");
			for (size_t i = 0; i < n_ents; i++) {
				if (ents[i].state == 1) {
					ents[i].state = 3;
				}
			}
			n_pend = 0;
			h = vt_hash(h, 4);
		} else if (r == 98 && vt_chance(1, 3)) {
			sc_heap_term(hp);
			vt_log("term");
			VT_CHECK(vt_live == 0, "%ld blocks left after term", vt_live);
			if (vt_chance(1, 2)) {
				sc_heap_term(hp);
			}
			for (size_t i = 0; i < n_ents; i++) {
				if (ents[i].state == 1) {
					ents[i].state = 3;
				}
			}
			n_pend = 0;
			if (vt_chance(1, 2)) {
				VT_CHECK(sc_heap_init(hp, vt_below(20)), "init failed");
			}
			h = vt_hash(h, 5);
		} else if (r == 99 && vt_chance(1, 2)) {
			while (n_pend > 0) {
				check_ent(sc_heap_pop(hp), "pop", true);
				pops++;
			}
			VT_CHECK(sc_heap_pop(hp) == NULL && sc_heap_peek(hp) == NULL, "drained heap not empty");
			vt_log("drain");
			vt_class("drained");
			h = vt_hash(h, 6);
		}
		VT_CHECK(sc_heap_size(hp) == n_pend, "size %zu, expected %zu", sc_heap_size(hp), n_pend);
		if (n_pend > 0 && vt_chance(1, 3)) {
			check_ent(sc_heap_peek(hp), "peek", false);
		}
		if (n_pend > high) {
			high = n_pend;
		}
	}
	size_t rest = n_pend;
	while (n_pend > 0) {
		check_ent(sc_heap_pop(hp), "pop", true);
	}
	VT_CHECK(sc_heap_size(hp) == 0 && sc_heap_pop(hp) == NULL, "drained heap not empty");
	for (size_t i = 0; i < n_ents; i++) {
		VT_CHECK(ents[i].state >= 2, "an entry was never returned");
	}
	sc_heap_term(hp);
	VT_CHECK(vt_live == 0, "%ld blocks left after term", vt_live);
	if (dup) {
		vt_class("duplicate-keys");
	}
	if (grown > 2) {
		vt_class("grew");
	}
	if (refused && pops) {
		vt_class("used-after-refusal");
	}
	vt_state(vt_hash(h, cap));
	if (vt_want_sample() && nops > 20) {
		vt_sample("heap of capacity %zu: %" PRIu64 " operations, key style %d, high water %zu, %d duplicate keys, %d growths, %d refused adds, %d pops, %zu drained at the end in order",
			  cap, nops, keymode, high, dup, grown, refused, pops, rest);
	}
	vt_free(ents);
	vt_free(sorted);
}
