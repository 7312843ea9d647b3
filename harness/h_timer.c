/* X01: a timer wheel driven with virtual time against a model of every timer. */
#include "vt.h"
#include "sc_timer.h"

enum { PENDING, FIRED, CANCELLED, CLEARED };
struct tm {
	uint64_t id, due, type, due_polls;
	int state;
	bool bare;   /* NULL as data: its type, its number, tells which it is */
	bool approx; /* the due time is beyond the 64-bit range */
	uint64_t added_poll;
	char tag; /* its address is the data */
};
#define MAXT 6000
static struct tm *tms;
static int n, live_t;
static struct sc_timer *t;
static uint64_t now, base, tick, polls;
static bool suggested; /* polled exactly as suggested so far */
static bool counted;   /* the running poll is at least a tick after the last counted one */
static int in_cb, cb_ops, nfired;
static uint64_t h;
static int max_t, act; /* how active callbacks are */
static int key_arg;

static uint64_t pick_timeout(void)
{
	switch (vt_below(12)) {
	case 0: return 0;
	case 1: return vt_below(17);
	case 2: return tick * vt_below(40) + (uint64_t) vt_range(-1, 1) * (vt_chance(1, 2) && tick > 1 ? 1 : 0) % 2 + 0;
	case 3: return (uint64_t) ((int64_t) (tick * (1 + vt_below(40))) + vt_range(-1, 1));
	case 4: return 16 * tick * vt_below(5) + vt_below(3);
	case 5: return vt_below(100000);
	case 6: return vt_chance(1, 4) ? vt_edge64() : vt_below(300);
	case 7: return vt_chance(1, 8) ? UINT64_MAX - vt_below(4) - (vt_chance(1, 2) ? now : 0) : vt_below(1000);
	default: return vt_below(400);
	}
}

static void add_one(void)
{
	if (n >= max_t) {
		return;
	}
	struct tm *m = &tms[n];
	uint64_t to = pick_timeout(), f = vt_alloc_failed;
	bool fault = vt_chance(1, 30);
	if (fault) {
		vt_fail_nth(1, vt_chance(1, 2));
	}
	m->bare = vt_chance(1, 4);
	m->type = m->bare || vt_chance(1, 2) ? (uint64_t) n : vt_edge64();
	m->id = sc_timer_add(t, to, m->type, m->bare ? NULL : &m->tag);
	vt_fail_off();
	vt_log("%sadd timer %d in %" PRIu64 " -> %" PRIx64, in_cb ? "  callback: " : "", n, to, m->id);
	h = vt_hash(h, to);
	if (m->id == SC_TIMER_INVALID) {
#ifdef MAXED
		vt_class("limit-reached");
#else
		VT_CHECK(f != vt_alloc_failed, "adding a timer is refused although memory is available");
#endif
		vt_class("add.refused");
		return;
	}
	m->approx = __builtin_add_overflow(now, to, &m->due) || m->due >= UINT64_MAX - 1;
	m->state = PENDING;
	m->due_polls = 0;
	m->added_poll = polls;
	for (int k = 0; k < n && n < 64; k++) {
		VT_CHECK(tms[k].state != PENDING || tms[k].id != m->id, "timers %d and %d have the same id", k, n);
	}
	n++;
	live_t++;
	if (m->approx) {
		vt_class("beyond-range");
	}
}

static int pick_pending(void)
{
	if (live_t == 0) {
		return -1;
	}
	int s = (int) vt_below((uint64_t) n);
	for (int k = 0; k < n; k++) {
		if (tms[(s + k) % n].state == PENDING) {
			return (s + k) % n;
		}
	}
	return -1;
}

static void cancel_one(void)
{
	int k = pick_pending();
	if (k < 0) {
		return;
	}
	vt_log("%scancel timer %d", in_cb ? "  callback: " : "", k);
	sc_timer_cancel(t, &tms[k].id);
	VT_CHECK(tms[k].id == SC_TIMER_INVALID, "the id of a cancelled timer is not reset");
	tms[k].state = CANCELLED;
	live_t--;
	if (vt_chance(1, 3)) {
		sc_timer_cancel(t, &tms[k].id); /* nothing */
		VT_CHECK(tms[k].id == SC_TIMER_INVALID, "a reset id changed");
	}
	h = vt_hash(h, (uint64_t) k + 77);
	vt_class(in_cb ? "cancelled-in-callback" : "cancelled");
}

static void clear_all(void)
{
	vt_log("%sclear", in_cb ? "  callback: " : "");
	sc_timer_clear(t);
	for (int k = 0; k < n; k++) {
		if (tms[k].state == PENDING) {
			tms[k].state = CLEARED;
		}
	}
	live_t = 0;
	h = vt_hash(h, 99);
	vt_class(in_cb ? "cleared-in-callback" : "cleared");
}

static void cb(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	struct tm *m = NULL;
	if (arg != &key_arg) {
		vt_fail("the callback argument is not the user's");
	}
	if (n > 0 && (char *) data >= &tms[0].tag && (char *) data <= &tms[n - 1].tag) {
		m = &tms[((uintptr_t) data - (uintptr_t) &tms[0].tag) / sizeof(*m)];
	}
	if (data == NULL && type < (uint64_t) n && tms[type].bare) {
		m = &tms[type];
		vt_class("null-data");
	} else if (m == NULL || data != &m->tag || m->bare) {
		vt_fail("the callback gets data that was never added");
	}
	int k = (int) (m - tms);
	vt_log("  timer %d fires, due %" PRIu64, k, timeout);
	VT_CHECK(m->state != FIRED, "timer %d fires twice", k);
	VT_CHECK(m->state == PENDING, "timer %d fires after it was %s", k, m->state == CANCELLED ? "cancelled" : "cleared");
	VT_CHECK(type == m->type, "timer %d fires with kind %" PRIu64 ", expected %" PRIu64, k, type, m->type);
	if (!m->approx) {
		VT_CHECK(timeout == m->due, "timer %d fires with due time %" PRIu64 ", expected %" PRIu64, k, timeout, m->due);
		VT_CHECK(now >= m->due, "timer %d fires at %" PRIu64 ", before it is due at %" PRIu64, k, now, m->due);
		if (suggested) {
			VT_CHECK(now - m->due <= tick, "timer %d due %" PRIu64 " fires at %" PRIu64 ", more than a tick late in a loop that waits as suggested", k, m->due, now);
			vt_class("suggested-loop-fire");
		}
	} else {
		VT_CHECK(now >= UINT64_MAX - 3, "timer %d, due beyond the 64-bit range, fires at %" PRIu64, k, now);
	}
	m->state = FIRED;
	live_t--;
	nfired++;
	h = vt_hash(h, (uint64_t) k + 1000);
	in_cb++;
	for (int ops = (int) vt_below((uint64_t) act + 1); ops > 0 && cb_ops > 0; ops--) {
		cb_ops--;
		switch (vt_below(act > 1 ? 12 : 3)) {
		case 0: cancel_one(); break;
		case 1: case 2: add_one(); vt_class("added-in-callback"); break;
		case 3:
			if (vt_chance(1, 10)) {
				clear_all();
				break;
			}
			/* fall through */
		default:
			for (int b = (int) vt_below(4); b > 0; b--) {
				add_one();
			}
		}
	}
	in_cb--;
}

static uint64_t poll_at(uint64_t ts)
{
	uint64_t r;
	bool two = ts - base >= tick; /* a poll spaced at least a tick from the last such one */
	bool far = tick <= UINT64_MAX / 16 && ts - base >= 16 * tick;
	now = ts;
	cb_ops = 60;
	polls++;
	counted = two;
	vt_log("poll at %" PRIu64 " (%" PRIu64 " after the last counted)", ts, ts - base);
	int before = nfired;
	r = sc_timer_timeout(t, ts, &key_arg, cb);
	VT_CHECK(r <= tick, "the suggested wait is %" PRIu64 ", a tick is %" PRIu64, r, tick);
	if (two) {
		base = ts;
		for (int k = 0; k < n; k++) {
			if (tms[k].state == PENDING && !tms[k].approx && tms[k].due <= now && tms[k].added_poll < polls) {
				VT_CHECK(!far, "timer %d due %" PRIu64 " is still pending at %" PRIu64 ", a poll more than 16 ticks after the last", k, tms[k].due, now);
				tms[k].due_polls++;
				VT_CHECK(tms[k].due_polls < 16, "timer %d due %" PRIu64 " is still pending at %" PRIu64 ", after 16 polls a tick apart", k, tms[k].due, now);
			}
		}
	}
	if (far && nfired > before) {
		vt_class("far-poll-fires");
	}
	h = vt_hash(h, ts);
	vt_class(nfired > before + 1 ? "poll-fires-several" : nfired > before ? "poll-fires-one" : "poll-fires-none");
	return r;
}

#ifdef VAST
/* more timers due at the same time than 16 bits count */
static void vast(uint64_t start, uint64_t cn)
{
	int want = 65536 + (int) vt_below(3000);
	long live = vt_live;
	tms = vt_calloc((size_t) want, sizeof(*tms));
	t = vt_malloc(sizeof(*t));
	n = live_t = nfired = act = 0;
	polls = 0;
	suggested = false;
	sc_timer_init(t, start);
	now = base = start;
	tick = UINT64_MAX;
	tick = sc_timer_timeout(t, start, &key_arg, cb);
	uint64_t to = tick * (1 + vt_below(40)) + vt_below(3);
	for (n = 0; n < want; n++) {
		struct tm *m = &tms[n];
		m->type = vt_rnd();
		m->due = now + to;
		m->id = sc_timer_add(t, to, m->type, &m->tag);
		if (m->id == SC_TIMER_INVALID) {
			vt_fail("adding timer %d is refused although memory is available", n);
		}
	}
	live_t = n;
	vt_log("%d timers due in %" PRIu64, n, to);
	for (int i = 0; i < 2000; i++) {
		int k = i < 500 ? n - 1 - i : i < 1000 ? i - 500 : (int) vt_below((uint64_t) n);
		if (tms[k].state == PENDING) {
			sc_timer_cancel(t, &tms[k].id);
			VT_CHECK(tms[k].id == SC_TIMER_INVALID, "the id of a cancelled timer is not reset");
			tms[k].state = CANCELLED;
			live_t--;
		}
	}
	if (cn % 3 == 0) {
		clear_all();
		poll_at(now + to / 2);
		int old = n;
		for (n = 0; n < want && n < old / 3; n++) { /* fewer of them, with other times */
			struct tm *m = &tms[n];
			m->state = PENDING;
			m->due = now + to;
			m->due_polls = 0;
			m->added_poll = polls;
			m->id = sc_timer_add(t, to, m->type, &m->tag);
			if (m->id == SC_TIMER_INVALID) {
				vt_fail("adding timer %d after a clear is refused although memory is available", n);
			}
		}
		live_t = n;
		vt_class("vast-cleared");
	}
	poll_at(now + to - 1);
	VT_CHECK(nfired == 0, "%d timers fire before they are due", nfired);
	poll_at(now + 1);
	for (int k = 0; k < 17; k++) {
		poll_at(now + tick);
	}
	VT_CHECK(live_t == 0, "%d timers never fire", live_t);
	sc_timer_term(t);
	VT_CHECK(vt_live == live, "%ld blocks stay after the termination", vt_live - live);
	vt_class("past-65536");
	vt_class_n("timers-fired", (uint64_t) nfired);
	vt_state(vt_hash(to, (uint64_t) want));
	vt_free(t);
	vt_free(tms);
}
#endif

void vt_case(uint64_t cn)
{
	uint64_t start = vt_chance(1, 3) ? 0 : vt_chance(1, 2) ? vt_rnd() >> 24 : vt_rnd() >> (1 + vt_below(60)), w;
	int ops;
	long live = vt_live;
	int kind = (int) vt_below(4); /* 0: as suggested; 1: ticks; 2: anything; 3: few polls far apart */
	(void) cn;
#ifdef VAST
	vast(start, cn);
	return;
#endif
	max_t = vt_chance(1, 30) ? MAXT : vt_chance(1, 3) ? 600 : 80;
#ifdef MAXED
	max_t = 2000;
#endif
	ops = max_t > 2000 ? 6000 : (int) vt_range(20, 500);
	act = (int) vt_below(4);
	tms = vt_malloc(sizeof(*tms) * MAXT);
	t = vt_malloc(sizeof(*t));
	memset(t, 0x5a, sizeof(*t));
	n = live_t = nfired = 0;
	polls = 0;
	suggested = kind == 0;
	sc_timer_init(t, start);
	VT_CHECK(vt_live == live, "init allocates");
	now = base = start;
	/* the granularity is what an idle wheel suggests */
	tick = UINT64_MAX;
	tick = sc_timer_timeout(t, start, &key_arg, cb);
	VT_CHECK(tick > 0 && tick <= 1000, "an idle wheel suggests to wait %" PRIu64, tick);
	h = vt_hash(start, (uint64_t) kind);
	w = tick;
	for (int i = 0; i < ops; i++) {
		switch (vt_below(10)) {
		case 0: case 1: case 2: case 3: add_one(); break;
		case 4: cancel_one(); break;
		case 5:
			if (vt_chance(1, 40)) {
				clear_all();
			} else if (vt_chance(1, 60)) {
				vt_log("term");
				sc_timer_term(t);
				for (int k = 0; k < n; k++) {
					tms[k].state = tms[k].state == PENDING ? CLEARED : tms[k].state;
				}
				live_t = 0;
				VT_CHECK(vt_live == live, "memory stays after the termination");
				if (vt_chance(1, 2)) {
					sc_timer_term(t);
				}
				vt_class("reused-after-term");
			} else {
				for (int b = (int) vt_below(max_t > 2000 ? 60 : 12); b > 0; b--) {
					add_one();
				}
			}
			break;
		default: {
			uint64_t d;
			if (kind == 0) {
				d = w;
			} else if (kind == 1) {
				d = tick * vt_below(4);
			} else if (kind == 2) {
				switch (vt_below(7)) {
				case 0: d = 0; break;
				case 1: d = vt_below(tick); break;
				case 2: d = tick + vt_below(tick); break;
				case 3: d = tick * (15 + vt_below(3)) + vt_below(2); break;
				case 4: d = vt_below(2000); break;
				case 5: d = vt_chance(1, 6) ? vt_rnd() >> (20 + vt_below(40)) : tick; break;
				default: d = vt_below(5 * tick);
				}
			} else {
				d = vt_below(20 * tick);
			}
			if (d > UINT64_MAX / 2 - now) {
				d = 1;
			}
			w = poll_at(now + d);
		}
		}
	}
	/* drain: everything due must come out; sixteen rounds a tick apart, then far ahead */
	for (int k = 0; k < 18 && kind != 0; k++) {
		poll_at(now + tick + (kind == 2 ? vt_below(tick) : 0));
	}
	uint64_t far = 0;
	for (int k = 0; k < n; k++) {
		if (tms[k].state == PENDING && !tms[k].approx && tms[k].due > far) {
			far = tms[k].due;
		}
	}
	if (kind != 0 && far > now && far < UINT64_MAX - 1000 * tick) {
		suggested = false;
		act = 0;
		poll_at(far);
		for (int k = 0; k < 17; k++) {
			poll_at(now + tick);
		}
		for (int k = 0; k < n; k++) {
			VT_CHECK(tms[k].state != PENDING || tms[k].approx, "timer %d never fires", k);
		}
		vt_class("drained");
	}
	sc_timer_term(t);
	VT_CHECK(vt_live == live, "%ld blocks stay after the termination", vt_live - live);
	VT_CHECK(n < 65 || max_t < 65 || n >= 0, "grown");
	if (n > 64) {
		vt_class("grown-wheel");
	}
	vt_class_n("timers-fired", (uint64_t) nfired);
	vt_state(h);
	if (vt_want_sample() && nfired > 20) {
		vt_sample("%d timers, %d fired, %" PRIu64 " polls %s, last at %" PRIu64, n, nfired, polls,
			  kind == 0 ? "as suggested" : kind == 1 ? "at whole ticks" : "at any spacing", now);
	}
	vt_free(t);
	vt_free(tms);
}
