/* L01: sc_list against a plain sequence per list. */
#include "vt.h"
#include "sc_list.h"

#define NL 4
#define NE_MAX 3000

struct node {
	uint64_t magic1;
	struct sc_list l;
	uint64_t magic2;
	uint32_t id;
	int list; /* model: which list holds it, -1 none */
};
struct holder {
	uint64_t g1;
	struct sc_list l;
	uint64_t g2;
};

static struct node *nodes;
static struct holder lists[NL];
static uint32_t *seq[NL];
static size_t len[NL];
static size_t ne;

#define G1 0x1111222233334444ull
#define G2 0x9999aaaabbbbccccull

static void m_remove(uint32_t id)
{
	int l = nodes[id].list;
	if (l < 0) {
		return;
	}
	size_t i = 0;
	while (seq[l][i] != id) {
		i++;
	}
	memmove(&seq[l][i], &seq[l][i + 1], (len[l] - i - 1) * sizeof(uint32_t));
	len[l]--;
	nodes[id].list = -1;
}
static void m_insert(int l, size_t pos, uint32_t id)
{
	memmove(&seq[l][pos + 1], &seq[l][pos], (len[l] - pos) * sizeof(uint32_t));
	seq[l][pos] = id;
	len[l]++;
	nodes[id].list = l;
}
static size_t m_pos(int l, uint32_t id)
{
	size_t i = 0;
	while (seq[l][i] != id) {
		i++;
	}
	return i;
}

static uint32_t id_of(struct sc_list *e)
{
	struct node *n = sc_list_entry(e, struct node, l);
	size_t k = (size_t) (n - nodes);
	if ((char *) n < (char *) nodes || k >= ne || &nodes[k].l != e) {
		vt_fail("walk reached something that is not an element");
	}
	return (uint32_t) k;
}

static void check(int l)
{
	struct sc_list *e, *n;
	size_t k = 0;
	struct sc_list *L = &lists[l].l;

	sc_list_foreach (L, e) {
		if (k >= len[l]) {
			vt_fail("forward walk of list %d longer than its %zu members", l, len[l]);
		}
		uint32_t id = id_of(e);
		if (seq[l][k] != id) {
			vt_fail("list %d: position %zu holds %u, expected %u", l, k, id, seq[l][k]);
		}
		k++;
	}
	VT_CHECK(k == len[l], "list %d: forward walk saw %zu of %zu", l, k, len[l]);
	sc_list_foreach_r (L, e) {
		if (k == 0) {
			vt_fail("backward walk of list %d longer than its %zu members", l, len[l]);
		}
		k--;
		if (seq[l][k] != id_of(e)) {
			vt_fail("list %d: backward position %zu wrong", l, k);
		}
	}
	VT_CHECK(k == 0, "list %d: backward walk missed %zu", l, k);
	k = 0;
	sc_list_foreach_safe (L, n, e) {
		if (k >= len[l] || seq[l][k] != id_of(e)) {
			vt_fail("list %d: safe walk wrong at %zu", l, k);
		}
		k++;
	}
	VT_CHECK(k == len[l], "list %d: safe walk saw %zu of %zu", l, k, len[l]);
	VT_CHECK(sc_list_count(L) == len[l], "list %d: count %zu, expected %zu", l, sc_list_count(L), len[l]);
	VT_CHECK(sc_list_is_empty(L) == (len[l] == 0), "list %d: is_empty wrong with %zu members", l, len[l]);
	e = sc_list_head(L);
	VT_CHECK((e == NULL) == (len[l] == 0) && (!e || id_of(e) == seq[l][0]), "list %d: wrong head", l);
	e = sc_list_tail(L);
	VT_CHECK((e == NULL) == (len[l] == 0) && (!e || id_of(e) == seq[l][len[l] - 1]), "list %d: wrong tail", l);
	VT_CHECK(lists[l].g1 == G1 && lists[l].g2 == G2, "list head neighbourhood overwritten");
	vt_event(3 * len[l]);
}

/* more members than 16 bits count */
static void vast(void)
{
	size_t n = 65536 + vt_below(30000), k = 0, left;
	struct vn {
		size_t id;
		struct sc_list l;
	} *v = vt_malloc(n * sizeof(*v)), *p;
	struct sc_list L, *it, *tmp;
	bool head = vt_chance(1, 2);

	sc_list_init(&L);
	for (size_t i = 0; i < n; i++) {
		v[i].id = i;
		sc_list_init(&v[i].l);
		if (head) {
			sc_list_add_head(&L, &v[i].l);
		} else {
			sc_list_add_tail(&L, &v[i].l);
		}
	}
	vt_log("%zu members added at the %s", n, head ? "head" : "tail");
	VT_CHECK(sc_list_count(&L) == n, "count %zu, expected %zu", (size_t) sc_list_count(&L), n);
	sc_list_foreach (&L, it) {
		p = sc_list_entry(it, struct vn, l);
		if (p->id != (head ? n - 1 - k : k)) {
			vt_fail("position %zu holds %zu", k, p->id);
		}
		k++;
	}
	VT_CHECK(k == n, "the loop visits %zu of %zu", k, n);
	left = n;
	sc_list_foreach_safe (&L, tmp, it) {
		p = sc_list_entry(it, struct vn, l);
		if (p->id % 3 == 0) {
			sc_list_del(&L, it);
			left--;
		}
	}
	VT_CHECK(sc_list_count(&L) == left, "count %zu after removals, expected %zu", (size_t) sc_list_count(&L), left);
	k = 0;
	sc_list_foreach_r (&L, it) {
		k++;
	}
	VT_CHECK(k == left, "the reverse loop visits %zu of %zu", k, left);
	vt_event(3 * n);
	vt_class("past-65536");
	vt_state(vt_hash(n, head));
	sc_list_clear(&L);
	VT_CHECK(sc_list_is_empty(&L), "not empty after clear");
	vt_free(v);
}

void vt_case(uint64_t cn)
{
	uint64_t h = 7, nops;
	if (cn % 5000 == 77) {
		vast();
		return;
	}
	int moves = 0, relist = 0, dels = 0, safe = 0;
	bool big = vt_chance(1, 30);

	ne = big ? (size_t) vt_range(200, NE_MAX) : (size_t) vt_range(1, 12);
	nodes = vt_calloc(ne, sizeof(*nodes));
	for (int l = 0; l < NL; l++) {
		lists[l].g1 = G1;
		lists[l].g2 = G2;
		memset(&lists[l].l, 0xa5, sizeof(lists[l].l));
		sc_list_init(&lists[l].l);
		seq[l] = vt_malloc((ne + 1) * sizeof(uint32_t));
		len[l] = 0;
		check(l);
	}
	for (size_t i = 0; i < ne; i++) {
		nodes[i].magic1 = G1;
		nodes[i].magic2 = G2;
		nodes[i].list = -1;
		sc_list_init(&nodes[i].l);
	}
	nops = big ? (uint64_t) vt_range(100, 600) : (uint64_t) vt_range(5, 120);
	int nl = (int) vt_range(1, NL);
	for (uint64_t op = 0; op < nops; op++) {
		int l = (int) vt_below((uint64_t) nl);
		uint32_t id = (uint32_t) vt_below(ne);
		struct sc_list *L = &lists[l].l, *E = &nodes[id].l, *r;
		int was = nodes[id].list, touched = was;
		unsigned kind = (unsigned) vt_below(16);

		h = vt_hash(h, kind * 1000003 + id * 17 + (unsigned) l);
		switch (kind) {
		case 0:
		case 1:
		case 12:
			m_remove(id);
			m_insert(l, len[l], id);
			sc_list_add_tail(L, E);
			vt_log("list %d add_tail %u", l, id);
			moves += was >= 0;
			break;
		case 2:
		case 3:
			m_remove(id);
			m_insert(l, 0, id);
			sc_list_add_head(L, E);
			vt_log("list %d add_head %u", l, id);
			moves += was >= 0;
			break;
		case 4:
		case 5:
		case 6:
		case 7:
			if (len[l] > 0) {
				uint32_t other = seq[l][vt_below(len[l])];
				if (other == id) {
					break;
				}
				m_remove(id);
				size_t p = m_pos(l, other);
				if (kind < 6) {
					m_insert(l, p + 1, id);
					sc_list_add_after(L, &nodes[other].l, E);
					vt_log("list %d add_after %u %u", l, other, id);
				} else {
					m_insert(l, p, id);
					sc_list_add_before(L, &nodes[other].l, E);
					vt_log("list %d add_before %u %u", l, other, id);
				}
				relist += was >= 0;
			}
			break;
		case 8: /* members and non-members alike */
		case 9:
			m_remove(id);
			sc_list_del(was >= 0 ? &lists[was].l : NULL, E);
			dels++;
			vt_log("del %u (was in %d)", id, was);
			break;
		case 10:
			r = sc_list_pop_head(L);
			vt_log("list %d pop_head", l);
			if (len[l] == 0) {
				VT_CHECK(r == NULL, "pop_head of an empty list returned something");
			} else {
				uint32_t want = seq[l][0];
				VT_CHECK(r == &nodes[want].l, "pop_head returned the wrong element");
				m_remove(want);
			}
			break;
		case 11:
			r = sc_list_pop_tail(L);
			vt_log("list %d pop_tail", l);
			if (len[l] == 0) {
				VT_CHECK(r == NULL, "pop_tail of an empty list returned something");
			} else {
				uint32_t want = seq[l][len[l] - 1];
				VT_CHECK(r == &nodes[want].l, "pop_tail returned the wrong element");
				m_remove(want);
			}
			break;
		case 13: /* removal and relocation of the visited element */
		case 14: {
			struct sc_list *e, *n;
			size_t before = len[l], seen = 0;
			uint32_t *order = vt_malloc((before + 1) * sizeof(*order));
			int to = (int) vt_below((uint64_t) nl);
			memcpy(order, seq[l], before * sizeof(*order));
			vt_log("list %d safe loop %s", l, kind == 13 ? "forward" : "backward");
#define BODY                                                                                       \
	{                                                                                          \
		uint32_t want = kind == 13 ? order[seen] : order[before - 1 - seen];               \
		if (seen >= before || id_of(e) != want) {                                          \
			vt_fail("safe loop visited the wrong element at step %zu", seen);          \
		}                                                                                  \
		seen++;                                                                            \
		if (vt_chance(1, 2)) {                                                             \
			uint32_t x = id_of(e);                                                     \
			m_remove(x);                                                               \
			sc_list_del(L, e);                                                         \
			if (vt_chance(1, 2)) { /* freed by the user */                             \
				e->next = e->prev = (void *) (uintptr_t) 0xdead;                   \
				sc_list_init(e);                                                   \
			}                                                                          \
			if (to != l) {                                                             \
				m_insert(to, len[to], x);                                          \
				sc_list_add_tail(&lists[to].l, e);                                 \
			}                                                                          \
		}                                                                                  \
	}
			if (kind == 13) {
				sc_list_foreach_safe (L, n, e)
					BODY
			} else {
				sc_list_foreach_safe_r (L, n, e)
					BODY
			}
			VT_CHECK(seen == before, "safe loop visited %zu of %zu", seen, before);
			vt_free(order);
			safe++;
			check(to);
			break;
		}
		case 15:
			if (vt_chance(1, 3)) {
				sc_list_clear(L);
				vt_log("list %d clear", l);
				while (len[l] > 0) {
					m_remove(seq[l][0]);
				}
			}
			break;
		}
		check(l);
		if (touched >= 0 && touched != l) {
			check(touched);
		}
		if (!big || vt_chance(1, 20)) {
			for (int i = 0; i < NL; i++) {
				check(i);
			}
		}
	}
	for (int i = 0; i < NL; i++) {
		check(i);
	}
	for (size_t i = 0; i < ne; i++) {
		VT_CHECK(nodes[i].magic1 == G1 && nodes[i].magic2 == G2, "element neighbourhood overwritten");
	}
	if (moves) {
		vt_class("moved-member");
	}
	if (relist) {
		vt_class("reinserted-next-to-member");
	}
	if (dels) {
		vt_class("deleted");
	}
	if (safe) {
		vt_class("safe-loop-removal");
	}
	vt_state(h);
	if (vt_want_sample() && nops > 20) {
		vt_sample("%d lists, %zu elements, %" PRIu64 " operations, %d moves of members, %d re-insertions next to members, %d deletions, %d safe loops that removed elements; final sizes %zu %zu %zu %zu",
			  nl, ne, nops, moves, relist, dels, safe, len[0], len[1], len[2], len[3]);
	}
	for (int l = 0; l < NL; l++) {
		vt_free(seq[l]);
	}
	vt_free(nodes);
}
