/* C14: sleeps, clocks, the life cycle of the periodic timer */
#include "l2h.h"
#include <errno.h>
#include <stdio.h>
#include <unistd.h>

void vmc_process_init(void) { diag_init(); }

/* --- sleeps --- */
static uint64_t slept;
static int nsleeps, nintr;
static int sleeper(uint64_t us, uint64_t *rem) {
	nsleeps++;
	if (nsleeps > 40) {
		vmc_fail("sleepcalls", "more than 40 sleep calls");
	}
	uint64_t t = us;
	int k = us ? vmc_dev(5, "interrupted") : 0;
	switch (k) {
	case 1: t = 0; break;
	case 2: t = 1; break;
	case 3: t = us / 2; break;
	case 4: t = us - 1; break;
	}
	slept += t;
	env_now += t;
	if (k) {
		nintr++;
		*rem = us - t;
		return EINTR;
	}
	return 0;
}
static const unsigned mss[] = {61, 62, 63, 99, 100, 101, 199, 200, 255, 256, 257, 300, 499, 500, 999, 1000, 1001, 1023, 1024, 1999, 2000, 2001, 2999, 3000,
	3333, 4294, 4295, 4999, 5000, 5001, 9999, 10000, 32767, 32768, 59999, 60000, 65535, 65536, 100000, 999999, 1000000, 2147483, 2147484, 4294967, 4294968, 10000000};
static unsigned pickms(void) {
	int n = (int)(sizeof(mss) / sizeof(mss[0]));
	int i = vmc_enum(61 + n, "ms");
	return i < 61 ? (unsigned)i : mss[i - 61];
}
static void sleeps(int p) {
	(void)p;
	env_reset();
	unsigned ms = pickms();
	env_now += (uint64_t)vmc_enum(3, "phase") * 499;
	env_sleep_hook = sleeper;
	slept = 0;
	nsleeps = nintr = 0;
	uint64_t a = env_now;
	diag_os_millisleep(ms);
	uint64_t d = env_now - a;
	vmc_log("sleep %u -> %llu us, %d interruptions", ms, (unsigned long long)d, nintr);
	VMC_CHECK(d >= (uint64_t)ms * 1000, "early", "a sleep of %u ms ended after %llu us (%d interruptions)", ms, (unsigned long long)d, nintr);
	VMC_CHECK(d <= (uint64_t)ms * 1000 * 2 + 10000, "late", "a sleep of %u ms took %llu us (%d interruptions)", ms, (unsigned long long)d, nintr);
	vmc_outcome("interruptions %d", nintr);
}

/* which clocks work is up to the system: RAW, MONOTONIC, BOOTTIME, REALTIME */
static int sup_gt, sup_ns;
static int cidx(clockid_t c) {
	switch (c) {
	case CLOCK_MONOTONIC_RAW: return 0;
	case CLOCK_MONOTONIC: return 1;
	case CLOCK_BOOTTIME: return 2;
	default: return 3;
	}
}
static int clkhook(clockid_t c, int sleeping) {
	if (sleeping) {
		return sup_ns & (1 << cidx(c)) ? 0 : ENOTSUP;
	}
	return sup_gt & (1 << cidx(c)) ? 0 : EINVAL;
}
static void clocks_supported(int p) {
	(void)p;
	env_reset();
	diag_end();
	sup_gt = 8 | vmc_enum(8, "clock_gettime support");
	sup_ns = 8 | vmc_enum(8, "clock_nanosleep support");
	env_clockid_hook = clkhook;
	VMC_CHECK(diag_init() == 0, "init", "diag_init failed (clocks %x %x)", sup_gt, sup_ns);
	VMC_CHECK(env_timers_live == 1 && env_timer_armed, "init", "the timer is not running");
	env_sleep_hook = sleeper;
	nsleeps = nintr = 0;
	unsigned ms = (unsigned[]){1, 25, 1000, 5300}[vmc_enum(4, "ms")];
	uint64_t a = env_now;
	unsigned long m0 = diag_os_getms();
	unsigned long long h0 = diag_os_gethrt();
	diag_os_millisleep(ms);
	unsigned long m1 = diag_os_getms();
	unsigned long long h1 = diag_os_gethrt();
	VMC_CHECK(env_now - a >= (uint64_t)ms * 1000, "early", "clocks %x %x: a sleep of %u ms ended after %llu us", sup_gt, sup_ns, ms, (unsigned long long)(env_now - a));
	VMC_CHECK(m1 - m0 >= ms && m1 - m0 <= ms * 2 + 20, "clock", "clocks %x %x: getms advanced by %lu during a sleep of %u ms", sup_gt, sup_ns, m1 - m0, ms);
	VMC_CHECK(diag_os_hrtus(h1 - h0) >= (uint64_t)ms * 1000, "clock", "gethrt");
	vmc_outcome("clocks %x %x", sup_gt, sup_ns);
	env_reset();
	diag_end();
	diag_init();
}

/* --- clocks --- */
static const uint64_t steps[] = {0, 1, 998, 999, 1000, 500000, 999998, 999999, 1000000, 4294967295ULL, 4294967296ULL, 3600ULL * 1000000, 4294967296ULL * 1000};
static const uint64_t base[] = {T0, 0, 999999, 4294967295ULL, 4294967295ULL * 1000 - 5, (4294967295ULL) * 1000000ULL, 1700000000ULL * 1000000};
static void clocks(int depth) {
	env_reset();
	env_now = base[vmc_enum(sizeof(base) / sizeof(base[0]), "base")];
	uint64_t n0 = env_now;
	unsigned long long h0 = diag_os_gethrt();
	unsigned long m0 = (env_now = n0, diag_os_getms());
	unsigned long long hp = h0;
	unsigned long mp = m0;
	for (int i = 0; i < depth; i++) {
		env_now = env_now + steps[vmc_enum(sizeof(steps) / sizeof(steps[0]), "step")];
		uint64_t n = env_now;
		unsigned long long h = diag_os_gethrt();
		env_now = n;
		unsigned long m = diag_os_getms();
		env_now = n;
		VMC_CHECK(h >= hp, "backwards", "gethrt went from %llu to %llu", hp, h);
		VMC_CHECK(m >= mp, "backwards", "getms went from %lu to %lu", mp, m);
		uint64_t us = n - n0;
		unsigned long long u = diag_os_hrtus(h - h0);
		VMC_CHECK(u == us, "units", "after %llu us gethrt shows %llu us", (unsigned long long)us, u);
		uint64_t lo = n / 1000 - n0 / 1000;
		VMC_CHECK(m - m0 == lo || m - m0 == us / 1000, "units", "after %llu us getms shows %lu ms", (unsigned long long)us, m - m0);
		hp = h;
		mp = m;
		vmc_state(n);
	}
	for (int i = 0; i < 64; i += 7) {
		unsigned long long x = 1ULL << i;
		VMC_CHECK(diag_os_hrtus(x) * (h0 ? 1 : 1) <= x, "units", "hrtus(2^%d)", i);
	}
}

/* --- starting and stopping the system --- */
static int keepalive_works(void) {
	/* an MB1 session, idle for 2 seconds */
	mk_reset(0);
	uint16_t k[] = {0xC2, 0xCD};
	mk_pushq(k, 2);
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_MB1, DIAG_L2_TYPE_SLOWINIT, 0, 0x10, 0xF1);
	VMC_CHECK(c != NULL, "start", "session refused");
	mk_cleartx();
	env_advance_us(2000000);
	env_timer_fire();
	int n = (int)mk.txn;
	diag_l2_StopCommunications(c);
	diag_l2_close(&mk_dl0d);
	return n > 0;
}
static int failsel;
static void lifecycle(int depth) {
	env_reset();
	mk_reset(0);
	diag_end();
	env_timers_live = 0;
	env_alloc_mark();
	bool up = false;
	for (int i = 0; i < depth; i++) {
		int op = vmc_enum(4, "operation: init end tick use");
		if (op == 0) {
			failsel = up ? 0 : vmc_dev(3, "timer fails");
			env_timer_fail = failsel;
			int rv = diag_init();
			env_timer_fail = 0;
			vmc_log("init (timer fault %d) -> %d", failsel, rv);
			if (failsel) {
				VMC_CHECK(rv != 0, "initerr", "diag_init succeeded although the timer could not be %s", failsel == 1 ? "created" : "set");
				VMC_CHECK(env_timers_live == 0, "timerleak", "a timer is left behind by the failed start");
			} else {
				VMC_CHECK(rv == 0, "init", "diag_init failed: %d", rv);
				up = true;
			}
		} else if (op == 1) {
			int rv = diag_end();
			VMC_CHECK(rv == 0, "end", "diag_end: %d", rv);
			up = false;
			vmc_log("end");
		} else if (op == 2) {
			env_advance_us(env_timer_period_us);
			env_timer_fire();
		} else if (up) {
			VMC_CHECK(keepalive_works(), "dead", "the periodic timer does not drive keep-alives any more");
		}
		VMC_CHECK(env_timers_live == (up ? 1 : 0), "timers", "%d periodic timers exist while the system is %s", env_timers_live, up ? "up" : "down");
		if (up) {
			VMC_CHECK(env_timer_armed && env_timer_period_us > 0 && env_timer_period_us <= 1000000, "armed", "the timer is not armed or slower than once per second (%llu us)", (unsigned long long)env_timer_period_us);
		}
		VMC_CHECK(env_live() == 0, "leak", "%ld blocks allocated", env_live());
		vmc_state(((uint64_t)up << 8) | (unsigned)op);
	}
	vmc_outcome("up %d", up);
	env_timer_fail = 0;
	diag_init();
}

/* is there input */
static int selrv;
static bool selok;
static int sel(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
	(void)w; (void)e;
	selok = r && n > 0 && FD_ISSET(0, r) && tv && tv->tv_sec == 0 && tv->tv_usec == 0;
	for (int i = 1; i < n; i++) {
		if (FD_ISSET(i, r)) {
			selok = false;
		}
	}
	if (selrv < 0) {
		errno = EINTR;
	}
	if (selrv <= 0) {
		FD_ZERO(r);
	}
	return selrv;
}
static void ipending(int p) {
	(void)p;
	env_reset();
	env_sys.select = sel;
	selrv = vmc_enum(3, "select") - 1;
	selok = true;
	int rv = diag_os_ipending();
	VMC_CHECK((rv != 0) == (selrv == 1), "ipending", "select returns %d, ipending %d", selrv, rv);
	VMC_CHECK(selok, "ipending", "wrong arguments");
}

const struct vmc_scenario vmc_scenarios[] = {
	{"sleep", sleeps, 0, 2, 4, 0, 0},
	{"clock-support", clocks_supported, 0, 1, 2, 0, 8},
	{"clocks", clocks, 4, 0, 0, 0, 7},
	{"clocks5", clocks, 5, 0, 0, VMC_THOROUGH_ONLY, 7},
	{"lifecycle", lifecycle, 6, 2, 3, 0, 4},
	{"lifecycle8", lifecycle, 8, 2, 3, VMC_THOROUGH_ONLY, 4},
	{"ipending", ipending, 0, 0, 0, 0, 0},
	{0}
};
