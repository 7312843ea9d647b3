/* Template: T (element type), NAME (sc_array_##NAME exists), MK(u64)->T,
 * CMPFN comparator, EQ(a,b) */
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define ARR struct CAT(sc_array_, NAME)

static void CAT(check_, NAME)(ARR *a, T *m, size_t n, int level)
{
	T e;
	size_t k = 0;

	VT_CHECK(sc_array_size(a) == n, "%s: size %zu, expected %zu", STR(NAME), (size_t) sc_array_size(a), n);
	if (n == 0) {
		sc_array_foreach (a, e) {
			k++;
		}
		VT_CHECK(k == 0, "%s: loop over an empty array visited %zu elements", STR(NAME), k);
		return;
	}
	VT_CHECK(EQ(sc_array_last(a), m[n - 1]), "%s: wrong last element, size %zu", STR(NAME), n);
	for (int i = 0; i < 3; i++) {
		size_t p = vt_below(n);
		VT_CHECK(EQ(sc_array_at(a, p), m[p]), "%s: wrong element at %zu of %zu", STR(NAME), p, n);
	}
	if (level == 0) {
		return;
	}
	for (k = 0; k < n; k++) {
		if (!EQ(sc_array_at(a, k), m[k])) {
			vt_fail("%s: wrong element at %zu of %zu", STR(NAME), k, n);
		}
	}
	k = 0;
	sc_array_foreach (a, e) {
		if (k >= n || !EQ(e, m[k])) {
			vt_fail("%s: loop step %zu of %zu gave a wrong element", STR(NAME), k, n);
		}
		k++;
	}
	VT_CHECK(k == n, "%s: loop visited %zu of %zu elements", STR(NAME), k, n);
	vt_event(2 * n);
	if (level == 2) { /* early exit, continue and nesting */
		size_t stop = vt_below(n), seen = 0, inner = 0, odd = 0;
		T f;
		sc_array_foreach (a, e) {
			if (seen == stop) {
				break;
			}
			seen++;
		}
		VT_CHECK(seen == stop && EQ(e, m[stop]), "%s: early exit at %zu saw %zu", STR(NAME), stop, seen);
		seen = 0;
		sc_array_foreach (a, e) {
			if (seen++ % 2 == 0) {
				continue;
			}
			odd++;
		}
		VT_CHECK(seen == n && odd == n / 2, "%s: continue in loop: %zu of %zu", STR(NAME), seen, n);
		if (n < 40) {
			size_t o = 0;
			sc_array_foreach (a, e) {
				size_t in = 0;
				sc_array_foreach (a, f) {
					if (!EQ(f, m[in])) {
						vt_fail("%s: nested loop", STR(NAME));
					}
					in++;
				}
				inner += in;
				o++;
			}
			VT_CHECK(o == n && inner == n * n, "%s: nested loops %zu %zu", STR(NAME), o, inner);
		}
	}
}

static void CAT(run_, NAME)(uint64_t caseno)
{
	ARR arr, *a = &arr;
	bool vast = LIMIT == SIZE_MAX && caseno % 500 == 77;
	T *m = vt_malloc(sizeof(T) * (MODEL_MAX + (vast ? 400000 : 0)));
	size_t n = 0, high = 0;
	uint64_t h = vt_hash(0, sizeof(T)), nops;
	bool big = vt_chance(1, 40);
	unsigned fail_rate = vt_chance(1, 2) ? 0 : (unsigned) vt_range(1, 6);
	int bias = (int) vt_below(4);
	int refused = 0, grown = 0, dels = 0;

	memset(a, 0xa5, sizeof(*a));
	sc_array_init(a);
	CAT(check_, NAME)(a, m, n, 1);
	VT_CHECK(!sc_array_oom(a), "oom reported after init");
	if (vast) { /* more elements than 16 bits count */
		size_t want = vt_chance(1, 2) ? 65536 + vt_below(20) : vt_thorough ? 66000 + vt_below(300000) : 66000 + vt_below(40000);
		while (n < want) {
			T v = MK(vt_rnd());
			sc_array_add(a, v);
			if (sc_array_oom(a)) {
				vt_fail("%s: add refused at size %zu although memory was available", STR(NAME), n);
			}
			m[n++] = v;
		}
		vt_log("%zu elements added", n);
		vt_event(n);
		CAT(check_, NAME)(a, m, n, 2);
		vt_class("past-65536");
	}
	nops = vast ? (uint64_t) vt_range(5, 100) : big ? (uint64_t) vt_range(2000, 30000) : (uint64_t) vt_range(5, 400);
	for (uint64_t op = 0; op < nops; op++) {
		unsigned r = (unsigned) vt_below(100);
		unsigned kind;
		unsigned addp = bias == 0 ? 45 : bias == 1 ? 60 : bias == 2 ? 75 : 90;
		if (big) {
			addp = (op / 3000) % 2 ? 30 : 96;
		}
		if (r < addp) {
			kind = 0;
		} else {
			static const unsigned char others[] = {1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 5, 6, 7, 8, 9};
			kind = others[vt_below(sizeof(others))];
			if (big && (kind == 4 || kind == 6 || kind == 7) && vt_chance(19, 20)) {
				kind = 3;
			}
		}
		h = vt_hash(h, kind);
		switch (kind) {
		case 0: {
			T v = MK(vt_rnd());
			uint64_t f0 = vt_alloc_failed, a0 = vt_allocs;
			if (fail_rate && vt_chance(fail_rate, 10)) {
				vt_fail_nth(1, false);
			}
			if (vt_chance(1, 8) && n > 0) { /* element taken from the array itself */
				size_t src = vt_below(n);
				v = m[src];
				sc_array_add(a, sc_array_at(a, src));
				vt_class("add.own");
			} else {
				sc_array_add(a, v);
			}
			vt_fail_off();
			if (sc_array_oom(a)) {
				refused++;
				vt_class("add.refused");
				vt_log("add -> refused at size %zu", n);
				VT_CHECK(vt_alloc_failed != f0 || (LIMIT != SIZE_MAX && n * sizeof(T) * 4 > LIMIT),
					 "%s: add refused at size %zu although memory was available", STR(NAME), n);
				h = vt_hash(h, 99);
			} else {
				VT_CHECK(vt_alloc_failed == f0, "%s: failed growth not reported at size %zu", STR(NAME), n);
				m[n++] = v;
				vt_log("add -> size %zu", n);
				if (vt_allocs != a0) {
					grown++;
				}
				VT_CHECK(LIMIT == SIZE_MAX || n * sizeof(T) <= LIMIT, "%s: %zu elements exceed the configured maximum", STR(NAME), n);
			}
			break;
		}
		case 1:
			if (n > 0) {
				size_t idx = vt_chance(1, 5) ? n - 1 : vt_chance(1, 5) ? 0 : vt_below(n);
				sc_array_del(a, idx);
				memmove(&m[idx], &m[idx + 1], (n - idx - 1) * sizeof(T));
				n--;
				dels++;
				vt_log("del(%zu) -> size %zu", idx, n);
			}
			break;
		case 2:
			if (n > 0) {
				size_t idx = vt_chance(1, 5) ? n - 1 : vt_chance(1, 5) ? 0 : vt_below(n);
				sc_array_del_unordered(a, idx);
				m[idx] = m[n - 1];
				n--;
				dels++;
				vt_log("del_unordered(%zu) -> size %zu", idx, n);
			}
			break;
		case 3:
			if (n > 0) {
				sc_array_del_last(a);
				n--;
				vt_log("del_last -> size %zu", n);
			}
			break;
		case 4: {
			uint64_t a0;
			size_t back;
			sc_array_clear(a);
			vt_log("clear");
			VT_CHECK(!sc_array_oom(a), "oom reported after clear");
			back = n < 300 ? n : 300;
			n = 0;
			CAT(check_, NAME)(a, m, n, 1);
			a0 = vt_allocs;
			for (size_t i = 0; i < back; i++) {
				T v = MK(vt_rnd());
				sc_array_add(a, v);
				m[n++] = v;
			}
			VT_CHECK(vt_allocs == a0, "%s: refilling a cleared array allocated", STR(NAME));
			CAT(check_, NAME)(a, m, n, 1);
			break;
		}
		case 5:
			sc_array_sort(a, CAT(cmp_, NAME));
			qsort(m, n, sizeof(T), CAT(cmp_, NAME));
			vt_log("sort %zu", n);
			break;
		case 6:
			sc_array_term(a);
			vt_log("term");
			VT_CHECK(vt_live == 0, "%s: %ld blocks left after term", STR(NAME), vt_live);
			if (vt_chance(1, 2)) {
				sc_array_term(a);
			}
			if (vt_chance(1, 2)) {
				sc_array_init(a);
			}
			n = 0;
			break;
		case 7: /* assignment through the access macro */
			if (n > 0) {
				size_t i = vt_below(n);
				T v = MK(vt_rnd());
				sc_array_at(a, i) = v;
				m[i] = v;
				vt_log("at(%zu) = ...", i);
			}
			break;
		case 8: /* delete with an index expression */
			if (n > 1) {
				size_t i = vt_below(n - 1), _cnt = i;
				sc_array_del(a, _cnt + 1);
				memmove(&m[i + 1], &m[i + 2], (n - i - 2) * sizeof(T));
				n--;
				vt_log("del(%zu + 1)", i);
			}
			break;
		case 9: { /* burst: run to the next growth */
			for (size_t i = vt_below(40); i > 0; i--) {
				T v = MK(vt_rnd());
				sc_array_add(a, v);
				if (sc_array_oom(a)) {
					VT_CHECK(LIMIT != SIZE_MAX, "unexpected refusal");
					break;
				}
				m[n++] = v;
			}
			vt_log("burst -> %zu", n);
			break;
		}
		}
		if (n > high) {
			high = n;
		}
		if (vast && vt_chance(1, 10)) {
			CAT(check_, NAME)(a, m, n, n ? 2 : 1);
		}
		CAT(check_, NAME)(a, m, n, n <= 24 ? (vt_chance(1, 4) ? 2 : 1) : vt_chance(1, n < 300 ? 16 : 2000));
	}
	CAT(check_, NAME)(a, m, n, 2 - (n == 0 ? 1 : 0));
	sc_array_term(a);
	VT_CHECK(vt_live == 0, "%s: %ld blocks left after term", STR(NAME), vt_live);
	vt_class("type." STR(NAME));
	if (grown > 2) {
		vt_class("grew");
	}
	if (dels) {
		vt_class("deleted");
	}
	if (refused && grown) {
		vt_class("refused-then-used");
	}
	vt_state(vt_hash(h, n));
	if (vt_want_sample() && nops > 20 && nops < 60) {
		vt_sample("array of %s: %" PRIu64 " operations, high water %zu, %d deletions, %d growths, %d refused growths, final size %zu; all %zu elements equal the model",
			  STR(NAME), nops, high, dels, grown, refused, n, n);
	}
	vt_free(m);
}
#undef T
#undef NAME
#undef MK
#undef EQ
