/* C23: the dumb interface driver against a model of the K and L lines.
 * oracle: the levels of both lines over (virtual) time, computed from what the
 * driver does to the port. */
#include "ttyh.h"
#include "diag_l2.h"

void vmc_process_init(void) { diag_init(); }

#define O_L 1
#define O_DTR 2
#define O_RTS 4
#define O_MAN 8
#define O_INV 0x10
#define O_FAST 0x20
#define O_BLK 0x40

static struct diag_l0_device *d;
static int opts;
static bool devs;
static int nfail;               /* port operations that failed */
static bool restorefailed;      /* ... the last one on the control lines */
static bool setupfailed;
static struct diag_serial_settings want;

/* one edge each */
#define MAXE 64
struct wave {
	int n;
	uint64_t t[MAXE];
	int v[MAXE];
};
static struct wave K, L, D;
static void edge(struct wave *w, uint64_t t, int v) {
	if (w->n && w->v[w->n - 1] == v) {
		return;
	}
	if (w->n && w->t[w->n - 1] == t) {
		/* no time spent */
		w->n--;
		if (w->n && w->v[w->n - 1] == v) {
			return;
		}
	}
	VMC_CHECK(w->n < MAXE, "edges", "more than %d edges on a line", MAXE);
	w->t[w->n] = t;
	w->v[w->n++] = v;
}
static int level(const struct wave *w, uint64_t t) {
	int v = -1;
	for (int i = 0; i < w->n && w->t[i] <= t; i++) {
		v = w->v[i];
	}
	return v;
}
static int lowrts(void) { return !(opts & O_INV); }     /* RTS which pulls L low */

/* ---- the ECU ---- */
static struct {
	uint64_t t;
	uint8_t b;
} in[64];
static int nin, inx;
static uint64_t rend;
static void sched(uint64_t t, uint8_t b) {
	if (nin < 64) {
		in[nin].t = t;
		in[nin++].b = b;
	}
}
static void h_onread(size_t n, unsigned tmo) {
	rend = env_now + tmo * 1000ULL;
}
static void h_idle(unsigned tmo) {
	if (inx < nin && in[inx].t <= rend) {
		if (in[inx].t > env_now) {
			env_advance_us(in[inx].t - env_now);
		}
		tt_push1(in[inx++].b);
	}
}
static void h_flush(void) {
	while (inx < nin && in[inx].t <= env_now + 30000) {
		inx++;
	}
}

static uint64_t w5t;            /* the 5 baud byte was written */
static uint8_t w5b;
static int w5n;
static uint64_t kend;           /* when the last bit of the address ends on K */
static uint8_t txb[64];
static uint64_t txt;
static int ntx;
static int syncwait;            /* ms from the end of the stop bit, or -1 */
static bool echo;
static void ecu_sync(uint64_t t);

static int h_write(const uint8_t *p, size_t n) {
	VMC_CHECK(tt.set.databits == diag_databits_8 && tt.set.stopbits == diag_stopbits_1 && tt.set.parflag == diag_par_n, "format", "sending, not as 8N1");
	if (tt.speed == 5) {
		VMC_CHECK(n == 1, "addrlen", "%zu bytes sent at 5 baud", n);
		w5n++;
		w5t = env_now;
		w5b = *p;
		/* the bits on K */
		uint64_t t = env_now;
		edge(&K, t, 0);
		for (int i = 0; i < 8; i++) {
			edge(&K, t + 200000ULL * (unsigned)(i + 1), (*p >> i) & 1);
		}
		edge(&K, t + 200000ULL * 9, 1);
		kend = t + 2000000ULL;
		if (echo) {
			sched(kend, *p);
		}
		ecu_sync(kend);
		return 0;
	}
	VMC_CHECK(tt.speed == want.speed, "speed", "sending at %u bps, configured %u", tt.speed, want.speed);
	if (!ntx) {
		txt = env_now;
	}
	for (size_t i = 0; i < n; i++) {
		if (ntx < 64) {
			txb[ntx++] = p[i];
		}
		sched(env_now + 1000 * (i + 1), p[i]);
	}
	return 0;
}
static void ecu_sync(uint64_t t) {
	if (syncwait >= 0) {
		sched(t + (unsigned)syncwait * 1000ULL, 0x55);
		sched(t + (unsigned)syncwait * 1000ULL + 7000, 0x08);
		sched(t + (unsigned)syncwait * 1000ULL + 14000, 0x08);
	}
}
static int h_break(int fast, unsigned ms) {
	edge(&K, env_now, 0);
	if (fast) {
		VMC_CHECK(ms >= 25, "fastbreak", "wake up pattern of %u ms", ms);
		edge(&K, env_now + 25000, 1);
		kend = env_now + 25000;
		/* it leaves the port like this */
		tt.set = (struct diag_serial_settings){10400, diag_databits_8, diag_stopbits_1, diag_par_n};
		tt.speed = 10400;
	} else {
		VMC_CHECK(!kend || kend != env_now, "glitch", "K is released between two low bits");
		kend = env_now + ms * 1000ULL;
		edge(&K, kend, 1);
	}
	return 0;
}
static void h_control(unsigned dtr, unsigned rts) {
	edge(&L, env_now, (int)!!rts != lowrts());
	edge(&D, env_now, !!dtr);
	restorefailed = false;
}
static int h_fail(int op) {
	if (!devs || op == T_READ) {
		return 0;
	}
	int k = vmc_dev(2 + (op == T_WRITE && tt.speed != 5), "port fails");
	if (k) {
		vmc_log("operation %d fails", op);
		nfail++;
		if (op == T_CONTROL) {
			restorefailed = true;
		}
		if (op == T_SETUP) {
			setupfailed = true;
		}
		if (op == T_IFLUSH) {
			nfail--;
		}
		return k == 2 ? 1 : DIAG_ERR_GENERAL;
	}
	if (op == T_SETUP) {
		setupfailed = false;
	}
	return 0;
}
static void setopts(struct diag_l0_device *x, int o) {
	for (struct cfgi *c = diag_l0_getcfg(x); c; c = c->next) {
		if (c->shortname && !strcmp(c->shortname, "dumbopts")) {
			VMC_CHECK(diag_cfg_setint(c, o) == 0, "cfg", "setting dumbopts to %d failed", o);
			return;
		}
	}
	vmc_fail("cfg", "no dumbopts");
}
static void begin(void) {
	env_reset();
	d = NULL;
	env_alloc_mark();
	tt_reset();
	memset(&K, 0, sizeof(K));
	memset(&L, 0, sizeof(L));
	memset(&D, 0, sizeof(D));
	nin = inx = w5n = ntx = nfail = 0;
	devs = restorefailed = setupfailed = false;
	syncwait = -1;
	echo = true;
	rend = kend = w5t = txt = 0;
	tt.onwrite = h_write;
	tt.fail = h_fail;
	tt.onread = h_onread;
	tt.onidle = h_idle;
	tt.onflush = h_flush;
	tt.onbreak = h_break;
	tt.oncontrol = h_control;
	d = diag_l0_new("DUMB");
	VMC_CHECK(d, "new", "no DUMB driver instance");
	diag_geterr();
}
static void lines(const char *when) {
	VMC_CHECK(tt.dtr == !(opts & O_DTR), "dtr", "%s: DTR is %d with options %#x", when, tt.dtr, opts);
	VMC_CHECK(tt.rts == !!(opts & O_RTS), "rts", "%s: RTS is %d with options %#x", when, tt.rts, opts);
}
static void finish(void) {
	devs = false;
	diag_l0_close(d);
	VMC_CHECK(!tt.isopen, "portleft", "the port is left open");
	diag_l0_del(d);
	d = NULL;
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
}
static bool doopen(int proto) {
	int rv = diag_l0_open(d, proto);
	if (rv) {
		VMC_CHECK(nfail, "open", "open failed: %s", diag_errlookup(rv));
		VMC_CHECK(!tt.isopen, "openleft", "failed open leaves the port open");
		return false;
	}
	VMC_CHECK(!nfail, "openok", "open succeeded although the port failed");
	lines("open");
	env_advance_us(1000000);
	return true;
}
static bool setspeed(unsigned s) {
	want = (struct diag_serial_settings){s, diag_databits_8, diag_stopbits_1, diag_par_n};
	int f = nfail;
	int rv = diag_l0_ioctl(d, DIAG_IOCTL_SETSPEED, &want);
	VMC_CHECK((rv == 0) == (nfail == f), "setspeed", "setting the speed gave %d, port %s", rv, nfail == f ? "fine" : "failed");
	if (rv == 0) {
		VMC_CHECK(tt.speed == s, "setspeed", "speed %u set, %u wanted", tt.speed, s);
	}
	return rv == 0;
}
static bool lconsistent(void) {
	return !(opts & O_RTS) == !(opts & O_INV);
}
/* level of the address byte in bit 0 (start) to 9 (stop) */
static int bit(uint8_t a, int i) {
	return i == 0 ? 0 : i == 9 ? 1 : (a >> (i - 1)) & 1;
}
static void check5(struct wave *w, const char *name, uint64_t t0, uint8_t a, int nbits) {
	/* every edge within 5% of its time */
	int v = 1;
	for (int i = 0; i < nbits; i++) {
		uint64_t lo = t0 + 190000ULL * (unsigned)i, hi = t0 + 210000ULL * (unsigned)i;
		if (i) {
			VMC_CHECK(level(w, lo) == v, "bit", "address %02x: %s is %d at the end of bit %d", a, name, level(w, lo), i - 1);
		}
		v = bit(a, i);
		VMC_CHECK(level(w, hi) == v, "bit", "address %02x: %s is %d at the start of bit %d, should be %d", a, name, level(w, hi), i, v);
		VMC_CHECK(level(w, t0 + 200000ULL * (unsigned)i + 100000) == v, "bit", "address %02x: %s in the middle of bit %d", a, name, i);
	}
	/* no other edges */
	int n = 0, e = 0;
	for (int i = 1, p = 0; i < nbits; i++) {
		n += bit(a, i) != p;
		p = bit(a, i);
	}
	for (int i = 1; i < w->n; i++) {
		e += w->t[i] > t0 && w->t[i] < t0 + 190000ULL * (unsigned)nbits;
	}
	VMC_CHECK(e == n, "edges", "address %02x: %d edges on %s, should be %d", a, e, name, n);
}
static int slowinit(uint8_t a) {
	struct diag_l1_initbus_args ia;
	memset(&ia, 0, sizeof(ia));
	ia.type = DIAG_L1_INITBUS_5BAUD;
	ia.addr = a;
	return diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &ia);
}
static void xslow(int mode) {
	static const unsigned sp[] = {10400, 9600};
	begin();
	int proto = vmc_enum(2, "protocol") ? DIAG_L1_ISO9141 : DIAG_L1_ISO14230;
	opts = (int)((unsigned)vmc_enum(32, "options"));        /* L DTR RTS MAN INV */
	uint8_t a;
	if (mode == 1) {
		static const uint8_t as[] = {0x33, 0x00, 0xff, 0x55, 0x01, 0x80};
		a = as[vmc_enum(vmc_thorough() ? 6 : 3, "address")];
	} else {
		a = (uint8_t)vmc_enum(256, "address");
	}
	static const int sw[] = {60, 300, -1, 400};
	int k = vmc_enum(mode == 1 ? 2 : 4, "sync after");
	unsigned speed = sp[vmc_enum(mode == 1 ? 1 : 2, "speed")];
	setopts(d, opts);
	devs = mode == 1;
	if (!doopen(proto) || !setspeed(speed)) {
		finish();
		return;
	}
	syncwait = sw[k];
	int wantok = k < 2;
	if (!devs && (opts & O_MAN) == 0 && vmc_enum(2, "echo") == 1) {
		/* no interface */
		echo = false;
		syncwait = -1;
		wantok = 0;
	}
	uint64_t t0 = env_now;
	if (opts & O_MAN) {
		/* the ECU sees the stop bit end 2 s after the start bit */
		echo = false;
		ecu_sync(t0 + 30000 + 2000000);
	}
	int f = nfail;
	devs = mode == 1;
	int rv = slowinit(a);
	devs = false;
	int failed = nfail != f;
	if (failed) {
		VMC_CHECK(rv < 0, "unreported", "the port failed, the initialisation succeeded");
	} else {
		VMC_CHECK(!wantok || rv == 0, "initfail", "initialisation failed (%s), sync %d ms after the stop bit", diag_errlookup(rv), syncwait);
		VMC_CHECK(wantok || rv < 0, "initok", "initialisation succeeded without sync byte");
	}
	if (!restorefailed) {
		lines("after slow init");
	}
	if (!setupfailed) {
		VMC_CHECK(tt.speed == speed, "speedleft", "port left at %u bps, configured %u", tt.speed, speed);
	}
	VMC_CHECK(ntx == 0, "sent", "%d bytes sent", ntx);
	if (!failed) {
		uint64_t s = 0;
		for (int i = 0; i < K.n; i++) {
			if (K.v[i] == 0) {
				s = K.t[i];
				break;
			}
		}
		VMC_CHECK(s, "nostart", "no start bit");
		/* (an edge to 1 before the start bit does not matter) */
		check5(&K, "K", s, a, 10);
		VMC_CHECK((opts & O_MAN) ? w5n == 0 : w5n == 1, "method", "%d bytes at 5 baud with options %#x", w5n, opts);
		if (opts & O_L) {
			uint64_t ls = 0;
			for (int i = 0; i < L.n; i++) {
				if (L.v[i] == 0 && L.t[i] + 5000 >= s) {
					ls = L.t[i];
					break;
				}
			}
			if (lconsistent()) {
				VMC_CHECK(ls && ls <= s + 5000, "lstart", "no start bit on L");
				VMC_CHECK(level(&L, ls - 1) == 1, "lidle", "L low before the start bit");
				check5(&L, "L", ls, a, 10);
				VMC_CHECK(level(&L, env_now) == 1, "lend", "L is left low");
			} else {
				/* L is low when idle, as configured */
				check5(&L, "L", s, a, 9);
			}
		} else {
			VMC_CHECK(L.n <= 1 && D.n <= 1, "lused", "control lines changed without L line");
		}
		if ((opts & O_MAN) || !(opts & O_L)) {
			VMC_CHECK(D.n <= 1, "dtr", "DTR changed during the initialisation");
		}
		if (rv == 0) {
			/* what follows are the key bytes */
			uint8_t b[3] = {0};
			VMC_CHECK(diag_l0_recv(d, b, 1, 20) == 1 && b[0] == 0x08, "kb1", "no key byte after the sync byte");
			VMC_CHECK(diag_l0_recv(d, b, 2, 20) == 1 && b[0] == 0x08, "kb2", "no second key byte");
		}
	}
	if (mode == 2) {
		/* and again */
		memset(&K, 0, sizeof(K));
		nin = inx = w5n = 0;
		syncwait = 100;
		echo = !(opts & O_MAN);
		tt.qh = tt.qt = 0;
		t0 = env_now;
		if (opts & O_MAN) {
			ecu_sync(t0 + 30000 + 2000000);
		}
		VMC_CHECK(slowinit(a) == 0, "again", "second initialisation failed");
		lines("after second init");
	}
	finish();
}

static void xfast(int mode) {
	begin();
	opts = vmc_enum(64, "options");
	unsigned speed = vmc_enum(2, "speed") ? 9600 : 10400;
	setopts(d, opts);
	devs = mode == 1;
	if (!doopen(DIAG_L1_ISO14230) || !setspeed(speed)) {
		finish();
		return;
	}
	int junk = vmc_enum(2, "noise");
	if (junk) {
		sched(env_now + 30000 + 20000, 0x00);
		sched(env_now + 30000 + 26000, 0xff);
	}
	struct diag_l1_initbus_args ia;
	memset(&ia, 0, sizeof(ia));
	ia.type = DIAG_L1_INITBUS_FAST;
	int f = nfail;
	int rv = diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &ia);
	devs = false;
	if (nfail != f) {
		VMC_CHECK(rv < 0, "unreported", "the port failed, the fast initialisation succeeded");
	} else {
		VMC_CHECK(rv == 0, "initfail", "fast initialisation failed: %s", diag_errlookup(rv));
		uint64_t s = 0;
		int nlow = 0;
		for (int i = 0; i < K.n; i++) {
			if (K.v[i] == 0) {
				s = s ? s : K.t[i];
				nlow++;
			}
		}
		VMC_CHECK(nlow == 1, "pulses", "%d pulses on K", nlow);
		VMC_CHECK(kend >= s + 24000 && kend <= s + 26000, "tinil", "K low for %d us", (int)(kend - s));
		VMC_CHECK(env_now >= s + 49000 && env_now <= s + 51000, "twup", "ready %d us after the start of the wake up pattern", (int)(env_now - s));
		if ((opts & O_L) && !(opts & O_FAST)) {
			VMC_CHECK(level(&L, s) == 0 && level(&L, s + 12000) == 0 && level(&L, s + 23000) == 0, "lpulse", "no pulse on L");
			VMC_CHECK(!lconsistent() || (level(&L, s - 2000) == 1 && level(&L, s + 27000) == 1), "lpulse", "pulse on L is not 25 ms");
		} else {
			VMC_CHECK(L.n <= 1 && D.n <= 1, "lused", "control lines changed without L line");
		}
		VMC_CHECK(D.n <= 1, "dtr", "DTR changed during the initialisation");
		/* no echo of the pulse is left */
		uint8_t b[8];
		VMC_CHECK(diag_l0_recv(d, b, sizeof(b), 5) == DIAG_ERR_TIMEOUT, "echoleft", "noise of the wake up pattern is received");
	}
	if (!restorefailed) {
		lines("after fast init");
	}
	if (nfail == f) {
		VMC_CHECK(tt.speed == speed, "speedleft", "port left at %u bps, configured %u", tt.speed, speed);
	}
	finish();
}

/* through L2: the idle time before, what is sent after */
static void xl2(int mode) {
	begin();
	opts = vmc_enum(128, "options");
	setopts(d, opts);
	diag_l0_del(d);
	/* L2 opens a link of its own */
	d = diag_l0_new("DUMB");
	setopts(d, opts);
	int kind = vmc_enum(3, "init");
	want = (struct diag_serial_settings){10400, diag_databits_8, diag_stopbits_1, diag_par_n};
	int rv = diag_l2_open(d, kind == 0 ? DIAG_L1_ISO9141 : DIAG_L1_ISO14230);
	VMC_CHECK(rv == 0, "l2open", "diag_l2_open: %d", rv);
	lines("opened");
	uint64_t t0 = env_now;
	static const uint8_t as[] = {0x33, 0x00, 0xff, 0x5a, 0x01};
	uint8_t a = as[vmc_enum(5, "address")];
	struct diag_l2_conn *c = diag_l2_StartCommunications(d, kind == 0 ? DIAG_L2_PROT_ISO9141 : DIAG_L2_PROT_ISO14230,
	                         kind == 2 ? DIAG_L2_TYPE_FASTINIT : DIAG_L2_TYPE_SLOWINIT, 10400, a, 0xf1);
	VMC_CHECK(!c, "silent", "communication started with nobody there");
	uint64_t s = 0;
	for (int i = 0; i < K.n && !s; i++) {
		if (K.v[i] == 0) {
			s = K.t[i];
		}
	}
	if (!(kind != 2 && !(opts & O_MAN))) {
		VMC_CHECK(s, "nostart", "no initialisation on K");
		VMC_CHECK(s >= t0 + 300000, "w5", "initialisation after only %d ms idle", (int)((s - t0) / 1000));
	} else {
		VMC_CHECK(w5n == 1 && w5t >= t0 + 300000, "w5", "initialisation after %d ms idle", (int)((w5t - t0) / 1000));
		VMC_CHECK(w5b == a, "addr", "address %02x sent, %02x requested", w5b, a);
	}
	if (kind == 2) {
		VMC_CHECK(ntx >= 4 && txt >= s + 49000 && txt <= s + 51000, "twup", "request %d us after the wake up", (int)(txt - s));
	} else {
		VMC_CHECK(ntx == 0, "sent", "%d bytes sent", ntx);
		check5(&K, "K", s, a, 10);
	}
	lines("after");
	diag_l2_close(d);
	finish();
}

static void xflags(int p) {
	begin();
	opts = vmc_enum(128, "options") | (vmc_enum(2, "more") ? 0x100 : 0);
	setopts(d, opts);
	int proto = 1 << vmc_enum(8, "protocol");
	devs = true;
	if (!doopen(proto)) {
		devs = false;
		nfail = 0;
		VMC_CHECK(doopen(proto), "reopen", "second open failed");
	}
	devs = false;
	uint32_t fl = diag_l0_getflags(d);
	VMC_CHECK(!(fl & DIAG_L1_BLOCKDUPLEX) == !(opts & O_BLK), "blockduplex", "block duplex flag with options %#x", opts);
	if (proto == DIAG_L1_ISO14230) {
		VMC_CHECK((fl & DIAG_L1_FAST) && (fl & DIAG_L1_SLOW) && (fl & DIAG_L1_HALFDUPLEX), "flags", "flags %x", fl);
	} else if (proto == DIAG_L1_ISO9141) {
		VMC_CHECK(!(fl & DIAG_L1_FAST) && (fl & DIAG_L1_SLOW) && (fl & DIAG_L1_HALFDUPLEX), "flags", "flags %x", fl);
	}
	/* data goes through as it is */
	want = (struct diag_serial_settings){4800, diag_databits_8, diag_stopbits_1, diag_par_n};
	VMC_CHECK(diag_l0_ioctl(d, DIAG_IOCTL_SETSPEED, &want) == 0 && tt.speed == 4800, "setspeed", "SETSPEED failed");
	uint8_t m[40], b[40];
	for (int i = 0; i < 40; i++) {
		m[i] = (uint8_t)(i * 37 + opts);
	}
	size_t n = (size_t)vmc_enum(5, "length") * 8;
	tt.bytetime_us = 0;
	devs = true;
	nfail = 0;
	int rv = diag_l0_send(d, m, n);
	devs = false;
	if (n == 0) {
		VMC_CHECK(rv < 0, "empty", "sent nothing");
		VMC_CHECK(diag_l0_recv(d, b, 0, 10) < 0, "empty", "received nothing");
	} else if (nfail) {
		VMC_CHECK(rv < 0, "unreported", "failed write reported as sent");
	} else {
		VMC_CHECK(rv == 0, "send", "send failed");
		VMC_CHECK((size_t)ntx == n && !memcmp(txb, m, n), "data", "%d bytes sent, %zu expected", ntx, n);
		/* the echo comes back */
		size_t half = n / 2 + 1;
		VMC_CHECK(diag_l0_recv(d, b, half, 100) == (int)half && !memcmp(b, m, half), "recv", "first part");
		rv = diag_l0_recv(d, b, sizeof(b), 100);
		VMC_CHECK(rv == (int)(n - half) && !memcmp(b, m + half, n - half), "recv", "second part: %d", rv);
		VMC_CHECK(diag_l0_recv(d, b, sizeof(b), 100) == DIAG_ERR_TIMEOUT, "recv", "bytes from nowhere");
		/* what arrives within the timeout is received */
		tt_push1(TT_WAIT(90));
		tt_push("\x5A\xA5", 2);
		rv = diag_l0_recv(d, b, 2, 100);
		VMC_CHECK(rv == 2 && b[0] == 0x5A && b[1] == 0xA5, "late", "bytes which came after 90 of 100 ms: %d", rv);
		tt_push1(TT_ERR);
		rv = diag_l0_recv(d, b, sizeof(b), 100);
		VMC_CHECK(rv < 0 && rv != DIAG_ERR_TIMEOUT, "recv", "failed read gives %d", rv);
	}
	finish();
}
static void xmem(int p) {
	env_reset();
	env_alloc_mark();
	static const char *nm[] = {"DUMB", "DUMBT"};
	const char *n = nm[vmc_enum(2, "driver")];
	env_alloc_fail_at = vmc_enum(12, "allocation");
	struct diag_l0_device *x = diag_l0_new(n);
	env_alloc_fail_at = -1;
	if (x) {
		diag_l0_del(x);
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
}
/* the electrical tests: whatever fails, the port is released, the lines are as configured */
static int anyop(const uint8_t *p, size_t n) {
	for (size_t i = 0; i < n && i < 40; i++) {
		tt_push1(p[i]);
	}
	return 0;
}
static void xtest(int p) {
	begin();
	diag_l0_del(d);
	d = diag_l0_new("DUMBT");
	VMC_CHECK(d, "new", "no DUMBT driver instance");
	opts = vmc_enum(8, "options");
	setopts(d, opts);
	int t = vmc_enum(16, "test");
	tt.onwrite = anyop;
	tt.onidle = NULL;
	tt.onbreak = NULL;
	devs = true;
	int rv = diag_l0_open(d, t);
	devs = false;
	VMC_CHECK(!(nfail && rv == 0) || t, "unreported", "port failure not reported");
	if (!restorefailed && tt.ncontrol) {
		lines("after the test");
	}
	VMC_CHECK(!tt.isopen, "portleft", "the port is left open");
	diag_l0_del(d);
	d = NULL;
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
}

const struct vmc_scenario vmc_scenarios[] = {
	{"slow", xslow, 0, 0, 0, 0, 16},
	{"slow.fail", xslow, 1, 1, 2, 0, 8},
	{"slow.again", xslow, 2, 0, 0, 0, 16},
	{"fast", xfast, 0, 0, 0, 0, 1},
	{"fast.fail", xfast, 1, 2, 3, 0, 4},
	{"l2", xl2, 0, 0, 0, 0, 4},
	{"flags", xflags, 0, 1, 2, 0, 8},
	{"mem", xmem, 0, 0, 0, 0, 1},
	{"test", xtest, 0, 1, 2, 0, 16},
	{0},
};
