/* Template: T, NAME, MK(u64), EQ(a,b) */
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define QUE struct CAT(sc_queue_, NAME)
#define M(i) (m[mf + (i)])

static void CAT(check_, NAME)(QUE *q, T *m, size_t mf, size_t n, int level)
{
	T e;
	size_t k = 0;

	VT_CHECK(sc_queue_size(q) == n, "%s: size %zu, expected %zu", STR(NAME), (size_t) sc_queue_size(q), n);
	VT_CHECK(!!sc_queue_empty(q) == (n == 0), "%s: empty() wrong with %zu elements", STR(NAME), n);
	if (n == 0) {
		sc_queue_foreach (q, e) {
			k++;
		}
		VT_CHECK(k == 0, "%s: loop over an empty queue visited %zu", STR(NAME), k);
		return;
	}
	VT_CHECK(EQ(sc_queue_peek_first(q), M(0)), "%s: wrong first element (size %zu)", STR(NAME), n);
	VT_CHECK(EQ(sc_queue_peek_last(q), M(n - 1)), "%s: wrong last element (size %zu)", STR(NAME), n);
	for (int i = 0; i < 3; i++) {
		size_t p = vt_below(n);
		VT_CHECK(EQ(sc_queue_at(q, p), M(p)), "%s: wrong element at %zu of %zu", STR(NAME), p, n);
	}
	if (level == 0) {
		return;
	}
	for (k = 0; k < n; k++) {
		if (!EQ(sc_queue_at(q, k), M(k))) {
			vt_fail("%s: wrong element at %zu of %zu", STR(NAME), k, n);
		}
	}
	k = 0;
	sc_queue_foreach (q, e) {
		if (k >= n || !EQ(e, M(k))) {
			vt_fail("%s: loop step %zu of %zu", STR(NAME), k, n);
		}
		k++;
	}
	VT_CHECK(k == n, "%s: loop visited %zu of %zu", STR(NAME), k, n);
	vt_event(2 * n);
	if (level == 2) {
		size_t stop = vt_below(n), seen = 0;
		sc_queue_foreach (q, e) {
			if (seen == stop) {
				break;
			}
			seen++;
			continue;
		}
		VT_CHECK(seen == stop && EQ(e, M(stop)), "%s: early exit at %zu saw %zu", STR(NAME), stop, seen);
		/* index walk */
		size_t i = sc_queue_first(q);
		for (k = 0; k < n; k++) {
			if (i == sc_queue_last(q)) {
				break;
			}
			i = sc_queue_next(q, i);
		}
		VT_CHECK(k == n && i == sc_queue_last(q), "%s: index walk took %zu of %zu steps", STR(NAME), k, n);
	}
}

#undef MM
#define MM ((size_t) MODEL_MAX + (vast ? 400000 : 0))
static void CAT(run_, NAME)(uint64_t caseno)
{
	QUE que, *q = &que;
	bool vast = LIMIT == SIZE_MAX && caseno % 500 == 77;
	T *m = vt_malloc(sizeof(T) * 2 * MM);
	size_t mf = MM, n = 0, high = 0;
	uint64_t h = vt_hash(1, sizeof(T)), nops;
	bool big = vt_chance(1, 40);
	unsigned fail_rate = vt_chance(1, 2) ? 0 : (unsigned) vt_range(1, 6);
	int style = (int) vt_below(6); /* which ends are favoured */
	int refused = 0, grown = 0, wraps = 0, after_refusal = 0;
	bool was_refused = false;

	memset(q, 0xa5, sizeof(*q));
	if (vt_chance(1, 12)) { /* refused initialisation */
		T v = MK(1);
		vt_fail_nth(1, false);
		sc_queue_init(q);
		vt_fail_off();
		VT_CHECK(sc_queue_oom(q), "%s: refused initialisation not reported", STR(NAME));
		sc_queue_add_last(q, v);
		VT_CHECK(sc_queue_oom(q) && sc_queue_size(q) == 0, "%s: add to a queue without storage accepted", STR(NAME));
		sc_queue_add_first(q, v);
		VT_CHECK(sc_queue_oom(q) && sc_queue_size(q) == 0, "%s: add to a queue without storage accepted", STR(NAME));
		sc_queue_term(q);
		VT_CHECK(vt_live == 0, "blocks left after term");
		vt_class("init.refused");
	}
	sc_queue_init(q);
	VT_CHECK(!sc_queue_oom(q), "oom reported after init");
	CAT(check_, NAME)(q, m, mf, n, 1);
	if (vast) { /* more elements than 16 bits count, in storage that wraps round */
		size_t want = vt_chance(1, 2) ? 65536 + vt_below(20) : vt_thorough ? 66000 + vt_below(300000) : 66000 + vt_below(40000);
		while (n < want) {
			T v = MK(vt_rnd());
			if (style & 1 ? vt_chance(1, 3) : n % 4096 < 30) {
				sc_queue_add_first(q, v);
				m[--mf] = v;
			} else {
				sc_queue_add_last(q, v);
				m[mf + n] = v;
			}
			if (sc_queue_oom(q)) {
				vt_fail("%s: add refused at size %zu although there was room", STR(NAME), n);
			}
			n++;
		}
		vt_log("%zu elements added", n);
		vt_event(n);
		CAT(check_, NAME)(q, m, mf, n, 2);
		vt_class("past-65536");
	}
	nops = vast ? (uint64_t) vt_range(5, 100) : big ? (uint64_t) vt_range(2000, 30000) : (uint64_t) vt_range(5, 500);
	for (uint64_t op = 0; op < nops; op++) {
		static const unsigned char w[6][5] = {
			/* addL addF delF delL other */
			{40, 0, 40, 0, 6}, {0, 40, 0, 40, 6}, {25, 25, 22, 22, 6}, {50, 5, 35, 5, 4}, {5, 45, 5, 40, 4}, {40, 40, 8, 8, 3}};
		unsigned tot = 0, r, kind = 0;
		int st = big ? (int) (op / 2500 % 2 ? (style + 2) % 5 : 5) : style;
		for (int i = 0; i < 5; i++) {
			tot += w[st][i];
		}
		r = (unsigned) vt_below(tot);
		while (r >= w[st][kind]) {
			r -= w[st][kind];
			kind++;
		}
		if ((mf < 200 || mf + n > 2 * MM - 200)) {
			memmove(m + MM / 2, m + mf, n * sizeof(T));
			mf = MM / 2;
			if (n > MM) {
				kind = 2;
			}
		}
		h = vt_hash(h, kind);
		switch (kind) {
		case 0:
		case 1: {
			T v = MK(vt_rnd());
			uint64_t f0 = vt_alloc_failed, a0 = vt_allocs;
			size_t rot = 0;
			if (fail_rate && vt_chance(fail_rate, 10)) {
				vt_fail_nth(1, false);
			}
			if (n > 0 && vt_chance(1, 10)) { /* value copied from the queue itself */
				unsigned how = (unsigned) vt_below(4);
				rot = how == 1 ? 0 : how == 2 ? n - 1 : vt_below(n);
				v = M(rot);
				if (kind == 0) {
					if (how == 1) {
						sc_queue_add_last(q, sc_queue_peek_first(q));
					} else if (how == 2) {
						sc_queue_add_last(q, sc_queue_peek_last(q));
					} else {
						sc_queue_add_last(q, sc_queue_at(q, rot));
					}
				} else if (how == 1) {
					sc_queue_add_first(q, sc_queue_peek_first(q));
				} else if (how == 2) {
					sc_queue_add_first(q, sc_queue_peek_last(q));
				} else {
					sc_queue_add_first(q, sc_queue_at(q, rot));
				}
				vt_class("add.own");
			} else if (kind == 0) {
				sc_queue_add_last(q, v);
			} else {
				sc_queue_add_first(q, v);
			}
			vt_fail_off();
			if (sc_queue_oom(q)) {
				refused++;
				was_refused = true;
				vt_class("add.refused");
				vt_log("add_%s -> refused at size %zu", kind ? "first" : "last", n);
				VT_CHECK(vt_alloc_failed != f0 || (LIMIT != SIZE_MAX && n * 4 > LIMIT),
					 "%s: add refused at size %zu although there was room", STR(NAME), n);
				h = vt_hash(h, 99);
			} else {
				VT_CHECK(vt_alloc_failed == f0, "%s: refused growth not reported at size %zu", STR(NAME), n);
				if (kind == 0) {
					m[mf + n] = v;
				} else {
					m[--mf] = v;
				}
				n++;
				after_refusal += was_refused;
				grown += vt_allocs != a0;
				vt_log("add_%s -> size %zu%s", kind ? "first" : "last", n, vt_allocs != a0 ? " (grown)" : "");
				VT_CHECK(LIMIT == SIZE_MAX || n <= LIMIT, "%s: %zu elements exceed the maximum", STR(NAME), n);
			}
			break;
		}
		case 2:
			if (n > 0) {
				T v = sc_queue_del_first(q);
				VT_CHECK(EQ(v, M(0)), "%s: del_first returned a wrong element (size %zu)", STR(NAME), n);
				mf++;
				n--;
				vt_log("del_first -> size %zu", n);
			}
			break;
		case 3:
			if (n > 0) {
				T v = sc_queue_del_last(q);
				VT_CHECK(EQ(v, M(n - 1)), "%s: del_last returned a wrong element (size %zu)", STR(NAME), n);
				n--;
				vt_log("del_last -> size %zu", n);
			}
			break;
		default:
			switch (vt_below(big ? 60 : 8)) {
			case 0: {
				uint64_t a0;
				size_t back = n < 300 ? n : 300;
				sc_queue_clear(q);
				VT_CHECK(!sc_queue_oom(q), "oom reported after clear");
				vt_log("clear");
				n = 0;
				mf = MM;
				CAT(check_, NAME)(q, m, mf, n, 1);
				a0 = vt_allocs;
				for (size_t i = 0; i < back; i++) {
					T v = MK(vt_rnd());
					sc_queue_add_last(q, v);
					m[mf + n++] = v;
				}
				VT_CHECK(vt_allocs == a0 && !sc_queue_oom(q), "%s: refilling a cleared queue allocated", STR(NAME));
				CAT(check_, NAME)(q, m, mf, n, 1);
				break;
			}
			case 1:
				sc_queue_term(q);
				VT_CHECK(vt_live == 0, "%s: %ld blocks left after term", STR(NAME), vt_live);
				if (vt_chance(1, 3)) {
					sc_queue_term(q);
				}
				sc_queue_init(q);
				vt_log("term, init");
				n = 0;
				break;
			case 2:
				if (n > 0) {
					size_t i = vt_below(n);
					T v = MK(vt_rnd());
					sc_queue_at(q, i) = v;
					M(i) = v;
					vt_log("at(%zu) = ...", i);
				}
				break;
			case 3: /* drain */
				while (n > 0) {
					T v = sc_queue_del_first(q);
					VT_CHECK(EQ(v, M(0)), "%s: drain returned a wrong element", STR(NAME));
					mf++;
					n--;
				}
				vt_log("drain");
				break;
			case 4: /* rotate: the same expression removes and adds */
				for (size_t i = n ? vt_below(20) : 0; i > 0; i--) {
					T v = M(0);
					if (LIMIT != SIZE_MAX && n * 4 > LIMIT) {
						break;
					}
					if (vt_chance(1, 3) && mf > 100) {
						v = M(n - 1);
						sc_queue_add_first(q, sc_queue_del_last(q));
						VT_CHECK(!sc_queue_oom(q), "rotate refused");
						m[--mf] = v;
						wraps++;
						continue;
					}
					sc_queue_add_last(q, sc_queue_del_first(q));
					VT_CHECK(!sc_queue_oom(q), "rotate refused");
					mf++;
					m[mf + n - 1] = v;
					wraps++;
				}
				vt_log("rotate");
				break;
			default: /* burst */
				for (size_t i = vt_below(40); i > 0; i--) {
					T v = MK(vt_rnd());
					sc_queue_add_last(q, v);
					if (sc_queue_oom(q)) {
						VT_CHECK(LIMIT != SIZE_MAX, "unexpected refusal");
						break;
					}
					m[mf + n++] = v;
				}
				vt_log("burst -> %zu", n);
			}
		}
		if (n > high) {
			high = n;
		}
		if (vast && vt_chance(1, 10)) {
			CAT(check_, NAME)(q, m, mf, n, n ? 2 : 1);
		}
		CAT(check_, NAME)(q, m, mf, n, n <= 40 ? (vt_chance(1, 4) ? 2 : 1) : vt_chance(1, n < 300 ? 16 : 2000));
	}
	CAT(check_, NAME)(q, m, mf, n, 2);
	sc_queue_term(q);
	VT_CHECK(vt_live == 0, "%s: %ld blocks left after term", STR(NAME), vt_live);
	vt_class("type." STR(NAME));
	if (grown > 2) {
		vt_class("grew");
	}
	if (after_refusal) {
		vt_class("used-after-refusal");
	}
	if (wraps) {
		vt_class("rotated");
	}
	vt_state(vt_hash(h, n));
	if (vt_want_sample() && nops > 20) {
		vt_sample("queue of %s: %" PRIu64 " operations (end preference %d), high water %zu, %d growths, %d refused growths, %d adds after a refusal, final size %zu equals the model",
			  STR(NAME), nops, style, high, grown, refused, after_refusal, n);
	}
	vt_free(m);
}
#undef T
#undef NAME
#undef MK
#undef EQ
#undef M
