/* Template: K, VT (value type), NAME, ISSTR (0/1), KMK(i) key of pool entry i,
 * VMK(u64) value */
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define MAP struct CAT(sc_map_, NAME)
#define F(op) CAT(sc_map_##op##_, NAME)

static void CAT(sweep_, NAME)(MAP *m, VT *val)
{
	size_t cnt = 0;
	for (size_t i = 0; i < pool_n; i++) {
		VT v = F(get)(m, KMK(i));
		if (!!sc_map_found(m) != present[i]) {
			vt_fail("%s: key %s %s", STR(NAME), kname(i), present[i] ? "is lost" : "is found although never put or deleted");
		}
		if (present[i] && v != val[i]) {
			vt_fail("%s: key %s has a wrong value", STR(NAME), kname(i));
		}
		cnt += present[i];
	}
	vt_event(pool_n);
	VT_CHECK(cnt == count && F(size)(m) == count, "%s: size %u, expected %zu", STR(NAME), F(size)(m), count);
}

#ifdef ITER
static long CAT(find_, NAME)(K k)
{
#if ISSTR
	return pool_find_str((const char *) k);
#else
	return pool_find(key_bits((uint64_t) k));
#endif
}

static void CAT(iter_, NAME)(MAP *m, VT *val)
{
	K k;
	VT v;
	size_t n = 0;

	stamp++;
	sc_map_foreach (m, k, v) {
		long i = CAT(find_, NAME)(k);
		if (i < 0) {
			vt_fail("%s: iteration produced a key that was never put", STR(NAME));
		}
		if (!present[i]) {
			vt_fail("%s: iteration produced the absent key %s", STR(NAME), kname((size_t) i));
		}
		if (seen[i] == stamp) {
			vt_fail("%s: iteration visited key %s twice", STR(NAME), kname((size_t) i));
		}
		if (v != val[i]) {
			vt_fail("%s: iteration gave key %s a wrong value", STR(NAME), kname((size_t) i));
		}
		seen[i] = stamp;
		n++;
	}
	VT_CHECK(n == count, "%s: iteration visited %zu of %zu entries", STR(NAME), n, count);
	n = 0;
	stamp++;
	sc_map_foreach_key (m, k) {
		long i = CAT(find_, NAME)(k);
		if (i < 0 || !present[i] || seen[i] == stamp) {
			vt_fail("%s: key iteration produced an absent or repeated key", STR(NAME));
		}
		seen[i] = stamp;
		n++;
	}
	VT_CHECK(n == count, "%s: key iteration visited %zu of %zu entries", STR(NAME), n, count);
	uint64_t sum = 0, want = 0;
	n = 0;
	sc_map_foreach_value (m, v) {
		sum += vt_mix((uint64_t) v);
		n++;
	}
	for (size_t i = 0; i < pool_n; i++) {
		if (present[i]) {
			want += vt_mix((uint64_t) val[i]);
		}
	}
	VT_CHECK(n == count, "%s: value iteration visited %zu of %zu entries", STR(NAME), n, count);
	VT_CHECK(sum == want, "%s: value iteration gave other values than stored", STR(NAME));
	vt_event(3 * count);
	if (count > 0) { /* early exit, continue, nesting */
		size_t stop = vt_below(count), c = 0;
		sc_map_foreach (m, k, v) {
			if (c == stop) {
				break;
			}
			c++;
			continue;
		}
		VT_CHECK(c == stop, "%s: early exit after %zu saw %zu", STR(NAME), stop, c);
		c = 0;
		sc_map_foreach_key (m, k) {
			if (c++ == stop) {
				break;
			}
		}
		VT_CHECK(c == stop + 1, "%s: early exit (keys)", STR(NAME));
		c = 0;
		sc_map_foreach_value (m, v) {
			if (c++ == stop) {
				break;
			}
		}
		VT_CHECK(c == stop + 1, "%s: early exit (values)", STR(NAME));
		if (count < 30) {
			K k2;
			VT v2;
			size_t in = 0;
			sc_map_foreach (m, k, v) {
				sc_map_foreach (m, k2, v2) {
					in++;
				}
			}
			VT_CHECK(in == count * count, "%s: nested iteration made %zu steps for %zu entries", STR(NAME), in, count);
		}
	}
}
#endif

static void CAT(run_, NAME)(uint64_t caseno)
{
	MAP mp, *m = &mp;
	VT *val;
	uint64_t h = 11, nops;
	bool big = vt_chance(1, 60), vast = caseno % 1000 == 77;
	unsigned fail_rate = vt_chance(2, 3) ? 0 : (unsigned) vt_range(1, 6);
	uint32_t cap = vt_chance(1, 3) ? 0 : vt_chance(1, 2) ? (uint32_t) vt_below(20) : (uint32_t) vt_size(5000);
	uint32_t lf = vt_chance(1, 2) ? 0 : (uint32_t) vt_range(26, 94);
	int refused = 0, overrides = 0, dels = 0, misses = 0, zero = 0, clears = 0;
	size_t high = 0;

	make_pool(ISSTR, sizeof(K), false, big, vast);
	val = vt_malloc(sizeof(VT) * pool_n);
	count = 0;
	memset(m, 0, sizeof(*m));
#ifdef ITER
	/* which parameters are accepted */
	for (int i = 0; i < 4; i++) {
		uint32_t f = vt_chance(1, 3) ? (uint32_t) vt_range(1, 24) : vt_chance(1, 2) ? (uint32_t) vt_range(96, 300) : (uint32_t) (96 + vt_below(UINT32_MAX - 96));
		VT_CHECK(!F(init)(m, cap, f), "%s: load factor %u accepted", STR(NAME), f);
		VT_CHECK(vt_live == 0, "%s: refused init left memory", STR(NAME));
	}
	if (vt_chance(1, 3)) {
		uint32_t huge = vt_chance(1, 2) ? UINT32_MAX - (uint32_t) vt_below(10) : (uint32_t) ((1u << 31) + vt_below(1u << 31));
		memset(m, 0, sizeof(*m));
		vt_alloc_limit = 1u << 28;
		bool ok = F(init)(m, huge, 0);
		vt_log("init(cap=%u) -> %d", huge, ok);
		VT_CHECK(!ok, "%s: capacity %u accepted although it cannot be allocated", STR(NAME), huge);
		vt_alloc_limit = 3ull << 30;
		VT_CHECK(vt_live == 0, "%s: refused init left memory", STR(NAME));
		vt_class("init.huge");
	}
	if (cap > 0 && vt_chance(1, 4)) {
		vt_fail_nth(1, false);
		VT_CHECK(!F(init)(m, cap, lf), "%s: refused allocation not reported by init", STR(NAME));
		vt_fail_off();
		VT_CHECK(vt_live == 0, "%s: refused init left memory", STR(NAME));
		vt_class("init.refused");
	}
#endif
	VT_CHECK(F(init)(m, cap, lf), "%s: init(%u, %u) failed", STR(NAME), cap, lf);
	vt_log("%s init(%u, %u), pool of %zu keys, style %d", STR(NAME), cap, lf, pool_n, pool_style);
	VT_CHECK(F(size)(m) == 0, "size after init");
	CAT(sweep_, NAME)(m, val);
	if (vast) { /* more entries than 16 bits count */
		for (size_t i = 0; i < pool_n; i++) {
			val[i] = VMK(vt_rnd());
			F(put)(m, KMK(i), val[i]);
			held[i] = (uint8_t) picked;
			if (sc_map_oom(m) || sc_map_found(m)) {
				vt_fail("%s: put of new key %s: oom=%d found=%d", STR(NAME), kname(i), sc_map_oom(m), sc_map_found(m));
			}
			present[i] = true;
			count++;
		}
		vt_log("%zu keys put", count);
		VT_CHECK(count > 65536, "the pool has only %zu keys", count);
		CAT(sweep_, NAME)(m, val);
#ifdef ITER
		CAT(iter_, NAME)(m, val);
#endif
		vt_class("past-65536");
	}
	nops = vast ? (uint64_t) vt_range(5, 200) : big ? (uint64_t) vt_range(5000, 60000) : (uint64_t) vt_range(5, 500);
	unsigned putp = (unsigned) vt_range(25, 85);
	for (uint64_t op = 0; op < nops; op++) {
		unsigned r = (unsigned) vt_below(100);
		size_t i = vt_below(pool_n);
		if (vt_chance(1, 25)) {
			i = 0; /* the zero/NULL key */
			zero++;
		}
		if (big) {
			putp = (op / 8000) % 2 ? 30 : 85;
		}
		if (r < putp) {
			VT v = VMK(vt_rnd());
			VT p;
			uint64_t f0 = vt_alloc_failed;
			if (fail_rate && vt_chance(fail_rate, 10)) {
				vt_fail_nth(1, false);
			}
			p = F(put)(m, KMK(i), v);
			vt_fail_off();
			if (sc_map_oom(m)) {
				vt_log("put(%s) -> refused", kname(i));
				VT_CHECK(vt_alloc_failed != f0, "%s: put refused although memory was available", STR(NAME));
				refused++;
				vt_class("put.refused");
				h = vt_hash(h, 77);
			} else {
				vt_log("put(%s)", kname(i));
				VT_CHECK(vt_alloc_failed == f0, "%s: refused growth not reported", STR(NAME));
				VT_CHECK(!!sc_map_found(m) == present[i], "%s: put(%s) says found=%d", STR(NAME), kname(i), sc_map_found(m));
				VT_CHECK(!present[i] || p == val[i], "%s: put(%s) returned a wrong previous value", STR(NAME), kname(i));
				overrides += present[i];
				count += !present[i];
				present[i] = true;
				val[i] = v;
				h = vt_hash(h, 1 + 10 * i);
				held[i] = (uint8_t) picked;
				if (vt_chance(1, 2)) {
					renew(i);
				}
			}
		} else if (r < putp + (100 - putp) * 5 / 10) {
			VT p = F(del)(m, KMK(i));
			vt_log("del(%s)", kname(i));
			VT_CHECK(!!sc_map_found(m) == present[i], "%s: del(%s) says found=%d", STR(NAME), kname(i), sc_map_found(m));
			VT_CHECK(!present[i] || p == val[i], "%s: del(%s) returned a wrong value", STR(NAME), kname(i));
			dels += present[i];
			count -= present[i];
			present[i] = false;
			h = vt_hash(h, 2 + 10 * i);
			held[i] = 0;
			if (vt_chance(1, 2)) {
				renew(i);
			}
		} else if (r < 98) {
			VT p = F(get)(m, KMK(i));
			VT_CHECK(!!sc_map_found(m) == present[i], "%s: get(%s) says found=%d, expected %d", STR(NAME), kname(i), sc_map_found(m), present[i]);
			VT_CHECK(!present[i] || p == val[i], "%s: get(%s) returned a wrong value", STR(NAME), kname(i));
			misses += !present[i];
			h = vt_hash(h, 3 + 10 * i);
		}
#ifdef ITER
		else if (vt_chance(1, big ? 200 : 2)) {
			F(clear)(m);
			vt_log("clear");
			clears++;
			memset(present, 0, pool_n);
			memset(held, 0, pool_n);
			if (pool_n < 600) {
				for (size_t k = 0; k < pool_n; k++) {
					renew(k);
				}
			}
			count = 0;
			h = vt_hash(h, 4);
			CAT(sweep_, NAME)(m, val);
			CAT(iter_, NAME)(m, val);
		} else if (vt_chance(1, big ? 200 : 4)) {
			F(term)(m);
			VT_CHECK(vt_live == 0, "%s: %ld blocks left after term", STR(NAME), vt_live);
			if (vt_chance(1, 2)) {
				F(term)(m);
			}
			vt_log("term, init");
			VT_CHECK(F(init)(m, vt_chance(1, 2) ? 0 : (uint32_t) vt_below(40), lf), "init failed");
			memset(present, 0, pool_n);
			memset(held, 0, pool_n);
			if (pool_n < 600) {
				for (size_t k = 0; k < pool_n; k++) {
					renew(k);
				}
			}
			count = 0;
			h = vt_hash(h, 5);
			CAT(iter_, NAME)(m, val);
		}
#endif
		VT_CHECK(F(size)(m) == count, "%s: size %u, expected %zu", STR(NAME), F(size)(m), count);
		if (vt_chance(1, pool_n < 40 ? 2 : pool_n < 600 ? 40 : 4000)) {
			CAT(sweep_, NAME)(m, val);
		}
#ifdef ITER
		if (vt_chance(1, pool_n < 40 ? 2 : pool_n < 600 ? 20 : 3000)) {
			CAT(iter_, NAME)(m, val);
		}
#endif
		if (count > high) {
			high = count;
		}
	}
	CAT(sweep_, NAME)(m, val);
#ifdef ITER
	CAT(iter_, NAME)(m, val);
	/* leave by clearing or deleting everything */
	if (vt_chance(1, 2)) {
		F(clear)(m);
		memset(present, 0, pool_n);
		count = 0;
	} else {
		for (size_t i = 0; i < pool_n; i++) {
			F(del)(m, KMK(i));
			present[i] = false;
		}
		count = 0;
	}
	CAT(sweep_, NAME)(m, val);
	CAT(iter_, NAME)(m, val);
#endif
	F(term)(m);
	VT_CHECK(vt_live == 0, "%s: %ld blocks left after term", STR(NAME), vt_live);
	VT_CHECK(F(size)(m) == 0, "%s: size after term", STR(NAME));
	F(term)(m);
	vt_class("type." STR(NAME));
	if (overrides && dels && misses) {
		vt_class("override+delete+miss");
	}
	if (zero) {
		vt_class("zero-key");
	}
	if (clears) {
		vt_class("cleared");
	}
	if (refused) {
		vt_class("refused-growth");
	}
	{
		char t[32];
		snprintf(t, sizeof(t), "keys.%d", pool_style);
		vt_class(t);
	}
	vt_state(vt_hash(h, cap * 100 + lf));
	if (vt_want_sample() && nops > 20 && pool_n > 3) {
		vt_sample("map %s, capacity %u, load factor %u, key style %d, pool of %zu keys (e.g. %s): %" PRIu64 " operations, high water %zu, %d overrides, %d deletions, %d misses, %d refused growths, %d clears",
			  STR(NAME), cap, lf, pool_style, pool_n, kname(pool_n / 2), nops, high, overrides, dels, misses, refused, clears);
	}
	vt_free(val);
	free_pool();
}
#undef K
#undef VT
#undef NAME
#undef ISSTR
#undef KMK
#undef VMK
