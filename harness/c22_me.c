/* C22: the Multiplex Engineering driver against a model of the device.
 * oracle: the 15 byte frames the device received and the 14 byte frames it sent. */
#include "ttyh.h"

void vmc_process_init(void) { diag_init(); }

static struct diag_l0_device *d;
static int proto;
static bool devs, ttyfailed;
static uint8_t addr;
static unsigned wantspeed;
static bool raw;

static struct {
	int n;
	uint8_t b[16];
	int nfr;                /* frames received */
	uint8_t fr[16][15];
	uint8_t rawb[300];
	int nraw;
	int nans, anext;        /* answers to send, one to each frame */
	uint8_t ans[4][14];
	uint8_t bit;            /* bit time byte of a raw init */
	int lastk;
} dv;

static uint8_t sum(const uint8_t *p, int n) {
	uint8_t s = 0;
	while (n--) {
		s = (uint8_t)(s + *p++);
	}
	return s;
}
static void mkans(uint8_t *a, uint8_t type, const uint8_t *p, int n) {
	memset(a, 0, 14);
	a[0] = 0x40;
	a[1] = type;
	memcpy(a + 2, p, (size_t)n);
	a[13] = sum(a + 1, 12);
}
static bool late;               /* the device takes its time */
static void answer(const uint8_t *a) {
	uint8_t b[14];
	memcpy(b, a, 14);
	if (late) {
		tt_push1(TT_WAIT(85));
	}
	int k = devs ? vmc_dev(9, "answer") : 0;
	dv.lastk = k;
	switch (k) {
	case 1: return;                         /* none */
	case 2: tt_push(b, 13); return;         /* short */
	case 3: tt_push(b, 1); return;
	case 4: b[13] ^= 1; break;              /* bad checksum */
	case 5: b[2 + vmc_enum(11, "where")] ^= 0x10; break;
	case 6:                                 /* error message */
		mkans(b, 0x80, (uint8_t[]){1, (uint8_t[]){0x05, 0x07, 0x0C, 0x00, 0x02, 0x3F, 0xFF}[vmc_enum(7, "error")], 3}, 3);
		break;
	case 7: tt_push1(TT_ERR); return;
	case 8: tt_push(b, 5); tt_push1(TT_ERR); return;
	}
	tt_push(b, 14);
}
static void frame(void) {
	uint8_t *b = dv.b;
	VMC_CHECK(b[0] == addr, "addr", "frame for device %02x, configured %02x", b[0], addr);
	/* (whether the checksum of a frame with 11 data bytes includes the last one is not known) */
	VMC_CHECK(b[14] == sum(b + 1, 13) || b[14] == sum(b + 1, 12), "cksum", "frame with checksum %02x, computed %02x", b[14], sum(b + 1, 13));
	if (dv.nfr < 16) {
		memcpy(dv.fr[dv.nfr++], b, 15);
	}
	if (b[1] == 0x20) {
		int k = devs ? vmc_dev(5, "bit time") : 0;
		dv.lastk = k;
		if (late) {
			/* 10 bits at 5 baud, W1 */
			tt_push1(TT_WAIT(2300));
		}
		switch (k) {
		case 0: tt_push1(dv.bit); break;
		case 1: break;
		case 2: tt_push1(0x40); tt_push1(0x80); break;
		case 3: tt_push1(TT_ERR); break;
		case 4: tt_push1(TT_GAP); break;
		}
		raw = true;
	} else if (dv.anext < dv.nans) {
		answer(dv.ans[dv.anext++]);
	}
}
static int h_write(const uint8_t *p, size_t n) {
	VMC_CHECK(tt.speed == wantspeed && tt.set.databits == diag_databits_8 && tt.set.stopbits == diag_stopbits_1 && tt.set.parflag == diag_par_n, "port", "sending at %u bps", tt.speed);
	VMC_CHECK(tt.dtr == 1 && tt.rts == 0, "power", "device not powered: DTR %d RTS %d", tt.dtr, tt.rts);
	for (size_t i = 0; i < n; i++) {
		if (raw) {
			if (dv.nraw < 300) {
				dv.rawb[dv.nraw++] = p[i];
			}
			continue;
		}
		dv.b[dv.n++] = p[i];
		if (dv.n == 15) {
			dv.n = 0;
			frame();
		}
	}
	return 0;
}
static int h_fail(int op) {
	int k = devs && op != T_READ && op != T_IFLUSH ? vmc_dev(2 + (op == T_WRITE), "port fails") : 0;
	if (k) {
		ttyfailed = true;
		dv.n = 0;
		return k == 2 ? 1 : DIAG_ERR_GENERAL;
	}
	return 0;
}
static void begin(void) {
	env_reset();
	if (d) {
		tt.isopen = 0;
		d = NULL;
	}
	env_alloc_mark();
	tt_reset();
	memset(&dv, 0, sizeof(dv));
	devs = ttyfailed = raw = late = false;
	addr = 0x38;
	wantspeed = 19200;
	tt.onwrite = h_write;
	tt.fail = h_fail;
	tt.bytetime_us = 520;
	d = diag_l0_new("MET16");
	VMC_CHECK(d, "new", "no MET16 driver instance");
	diag_geterr();
}
static void finish(void) {
	devs = false;
	diag_l0_del(d);
	d = NULL;
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
	VMC_CHECK(!tt.isopen, "portleft", "the port is left open");
}
static void doclose(void) {
	devs = false;
	diag_l0_debug = 0;
	diag_l0_close(d);
	VMC_CHECK(!tt.isopen && !d->opened, "close", "close left the port open");
}
static void setaddr(uint8_t a) {
	struct cfgi *c = diag_l0_getcfg(d);
	for (; c && strcmp(c->shortname, "meaddr"); c = c->next) {
	}
	VMC_CHECK(c && c->type == CFGT_U8, "cfg", "no address item");
	if (c) {
		VMC_CHECK(c->val.u8 == 0x38, "cfgdef", "default address %02x", c->val.u8);
		c->val.u8 = a;
	}
	addr = a;
}
static const int protos[] = {DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_ISO14230, DIAG_L1_ISO9141};
static const uint8_t rtype[] = {0x82, 0x84, 0x01, 0x81};
static int pi;
static void setproto(int n) {
	pi = vmc_enum(n, "protocol");
	proto = protos[pi];
}
static int doopen(void) {
	raw = false;
	wantspeed = 19200;
	dv.n = dv.nfr = dv.nraw = dv.nans = dv.anext = 0;
	return diag_l0_open(d, proto);
}
static int timed(int rv, uint64_t t, unsigned ms, const char *what) {
	VMC_CHECK(env_now - t <= ms * 1000ULL, "time", "%s took %llu ms", what, (unsigned long long)(env_now - t) / 1000);
	return rv;
}

static void xopen(int p) {
	begin();
	setproto(4);
	for (int k = 0; k < 2; k++) {
		devs = true;
		ttyfailed = false;
		int rv = doopen();
		devs = false;
		vmc_outcome("%d", rv);
		VMC_CHECK((rv == 0) == !ttyfailed && rv <= 0, "open", "open returned %d", rv);
		if (rv == 0) {
			VMC_CHECK(tt.isopen && d->opened && tt.speed == 19200 && tt.dtr == 1 && tt.rts == 0, "opened", "port not set up after a successful open");
			uint32_t f = diag_l0_getflags(d);
			VMC_CHECK(!!(f & DIAG_L1_DOESL2FRAME) == (pi < 3) && !!(f & DIAG_L1_DOESL2CKSUM) == (pi < 3), "flags", "flags %x", f);
			doclose();
		} else {
			VMC_CHECK(!tt.isopen && !d->opened, "failopen", "a failed open left %s", tt.isopen ? "the port open" : "the device marked open");
		}
	}
	finish();
}

/* what is sent */
static void xsend(int p) {
	begin();
	setproto(4);
	if (p == 0) {
		setaddr((uint8_t[]){0x38, 0x00, 0xFF}[vmc_enum(3, "device address")]);
	}
	VMC_CHECK(doopen() == 0, "open", "open failed");
	int nm = p ? 3 : 1;
	bool fast = false;
	if (p) {
		diag_l0_debug = p == 2 ? -1 : 0;
	}
	for (int i = 0; i < nm; i++) {
		static const int ls[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 255, 256, 1030};
		int len = p ? (int[]){3, 11}[vmc_enum(2, "length")] : ls[vmc_enum(18, "length")];
		int seed = vmc_enum(p ? 1 : 3, "data");
		uint8_t *m = malloc((size_t)len);
		for (int j = 0; j < len; j++) {
			m[j] = (uint8_t)(seed == 0 ? '%' + j : seed == 1 ? 0xFF : 0);
		}
		if (p && proto == DIAG_L1_ISO14230 && vmc_enum(2, "fast init")) {
			struct diag_l1_initbus_args in;
			memset(&in, 0, sizeof(in));
			in.type = DIAG_L1_INITBUS_FAST;
			int rv = diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &in);
			VMC_CHECK(rv == 0, "fast", "fast init returned %d", rv);
			fast = true;
		}
		dv.nfr = 0;
		devs = true;
		ttyfailed = false;
		int rv = diag_l0_send(d, m, (size_t)len);
		devs = false;
		bool fits = len > 0 && len <= 11;
		VMC_CHECK(rv <= 0 && (rv == 0) == (fits && !ttyfailed), "send", "sending %d bytes returned %d", len, rv);
		if (fits && !ttyfailed) {
			uint8_t c = pi == 0 ? 0x02 : pi == 1 ? 0x80 : pi == 2 ? (fast ? 0x87 : 0x88) : 0x10;
			VMC_CHECK(dv.nfr == 1 && dv.fr[0][1] == c && dv.fr[0][2] == len && !memcmp(dv.fr[0] + 3, m, (size_t)len), "frame", "%d frames; command %02x, length %d", dv.nfr, dv.fr[0][1], dv.fr[0][2]);
			for (int j = 3 + len; j < 14; j++) {
				VMC_CHECK(dv.fr[0][j] == 0, "pad", "padding byte %02x", dv.fr[0][j]);
			}
			if (fast && vmc_enum(2, "answered")) {
				/* the device initialises the bus before the ECU can answer: the first receive waits longer */
				uint8_t a[14], b[16];
				mkans(a, 0x11, (const uint8_t *)"\x83\xF1\x11\xC1\xEF\x8F\xC4", 7);
				tt_push1(TT_WAIT(150));
				tt_push(a, 14);
				rv = diag_l0_recv(d, b, 16, 50);
				VMC_CHECK(rv > 0 && !memcmp(b, "\x83\xF1\x11\xC1", 4), "fastreply", "the first answer was read as %d", rv);
				tt.qh = tt.qt = 0;
			} else if (fast) {
				uint64_t t = env_now;
				uint8_t b[4];
				rv = timed(diag_l0_recv(d, b, 4, 50), t, 500, "receiving");
				VMC_CHECK(rv < 0 && env_now - t >= 50000, "silence", "silence read as %d", rv);
			}
			fast = false;
		} else {
			VMC_CHECK(dv.nfr == 0 && dv.n == 0, "sent", "something was sent");
			if (ttyfailed) {
				free(m);
				break;
			}
		}
		free(m);
	}
	doclose();
	finish();
}

static uint8_t crc8(const uint8_t *p, int n) {
	unsigned c = 0xff;
	for (int i = 0; i < n; i++) {
		c ^= p[i];
		for (int j = 0; j < 8; j++) {
			c = c & 0x80 ? (c << 1) ^ 0x11d : c << 1;
		}
	}
	return (uint8_t)~c;
}
/* received messages: every length, with its checksum; read whole or in pieces */
static void xrecv(int p) {
	begin();
	setproto(4);
	diag_l0_debug = p == 2 ? -1 : 0;
	VMC_CHECK(doopen() == 0, "open", "open failed");
	int nm = p ? 3 : 1;
	uint8_t req[3] = {1, 2, 3};
	for (int i = 0; i < nm; i++) {
		int len = p ? (int[]){3, 11}[vmc_enum(2, "message length")] : vmc_enum(10, "message length") + 2;
		int fill = vmc_enum(p ? 1 : 3, "data");
		uint8_t m[12];
		for (int j = 0; j < len - 1; j++) {
			m[j] = (uint8_t)(fill == 0 ? 0x41 + 3 * j + 16 * i : fill == 1 ? 0x80 : j == len - 2 ? 0 : 0xFF);
		}
		int bad = p ? 0 : vmc_enum(2, "checksum");
		m[len - 1] = pi < 2 ? crc8(m, len - 1) : sum(m, len - 1);
		if (bad) {
			m[len - 1] ^= 0x41;
		}
		mkans(dv.ans[0], rtype[pi], m, len);
		/* the length is that of the longest prefix that ends in its checksum; otherwise all */
		int want = 11;
		for (int l = 11; l >= 2; l--) {
			uint8_t *a = dv.ans[0] + 2;
			if (a[l - 1] == (pi < 2 ? crc8(a, l - 1) : sum(a, l - 1))) {
				want = l;
				break;
			}
			if (a[l - 1]) {
				break;
			}
		}
		VMC_CHECK(bad || want >= len, "oracle", "message of %d bytes: %d", len, want);
		dv.nans = 1;
		dv.anext = 0;
		tt.qh = tt.qt = 0;
		devs = false;
		VMC_CHECK(diag_l0_send(d, req, 3) == 0, "send", "send failed");
		/* (send comes first, so that only the answer goes wrong) */
		tt.qh = tt.qt = 0;
		devs = p > 0;
		ttyfailed = false;
		late = vmc_dev(2, "late");
		answer(dv.ans[0]);
		int k = dv.lastk;
		size_t L = (size_t[]){255, 1, 2, 11, 10}[vmc_enum(p ? 3 : 5, "read length")];
		int off = 0, rv = 0;
		uint8_t b[255];
		do {
			memset(b, 0xEE, sizeof(b));
			uint64_t t = env_now;
			rv = timed(diag_l0_recv(d, b, L, 100), t, 700, "receiving");
			VMC_CHECK(rv != 0 && rv <= (int)L, "recvrv", "receive returned %d", rv);
			if (rv > 0) {
				VMC_CHECK(k == 0, "answerok", "data from a bad answer (%d)", k);
				VMC_CHECK(off + rv <= want && (rv == (int)L || off + rv == want) && !memcmp(b, dv.ans[0] + 2 + off, (size_t)rv), "data", "%d bytes at %d of %d", rv, off, want);
				VMC_CHECK(rv == 255 || b[rv] == 0xEE, "beyond", "more than %d bytes written", rv);
				off += rv;
			}
		} while (rv > 0 && off < want);
		VMC_CHECK(k || off == want, "lost", "%d of %d bytes received, then error %d", off, want, rv);
		vmc_outcome("%d %d", k, rv < 0 ? rv : 1);
		/* after a short answer the rest may still come */
		if (k == 2 || k == 3 || k == 8) {
			if (k == 8) {
				diag_l0_recv(d, b, 255, 100);
			}
			int have = k == 2 ? 13 : k == 3 ? 1 : 5;
			if (vmc_enum(2, "rest comes")) {
				tt_push(dv.ans[0] + have, (size_t)(14 - have));
				rv = diag_l0_recv(d, b, 255, 100);
				VMC_CHECK(rv == want && !memcmp(b, dv.ans[0] + 2, (size_t)want), "rest", "completed answer received as %d", rv);
			} else {
				/* it does not: close and reopen */
				doclose();
				diag_l0_debug = p == 2 ? -1 : 0;
				VMC_CHECK(doopen() == 0, "open", "open failed");
			}
		}
	}
	doclose();
	finish();
}
/* no data is lost when several messages arrive at once, whatever the first reads are */
static void xmany(int p) {
	begin();
	setproto(3);
	VMC_CHECK(doopen() == 0, "open", "open failed");
	int n = 3, len[3];
	for (int i = 0; i < n; i++) {
		uint8_t m[11];
		len[i] = (int[]){4, 11, 7}[vmc_enum(3, "message length")];
		for (int j = 0; j < len[i] - 1; j++) {
			m[j] = (uint8_t)(0x11 * (i + 1) + j);
		}
		m[len[i] - 1] = pi < 2 ? crc8(m, len[i] - 1) : sum(m, len[i] - 1);
		mkans(dv.ans[i], rtype[pi], m, len[i]);
		tt_push(dv.ans[i], 14);
	}
	for (int i = 0; i < n; i++) {
		int off = 0;
		while (off < len[i]) {
			uint8_t b[16];
			size_t L = (size_t)(off ? 4 : (int[]){16, 3, 1}[vmc_enum(3, "read length")]);
			int rv = diag_l0_recv(d, b, L, 100);
			VMC_CHECK(rv > 0 && rv <= (int)L && off + rv <= len[i] && !memcmp(b, dv.ans[i] + 2 + off, (size_t)rv), "many", "message %d: %d bytes at %d of %d", i, rv, off, len[i]);
			off += rv;
		}
	}
	uint8_t b[4];
	VMC_CHECK(diag_l0_recv(d, b, 4, 50) == DIAG_ERR_TIMEOUT, "idle", "something else received");
	doclose();
	finish();
}

/* 5 baud init */
static void xslow(int p) {
	begin();
	pi = 2 + vmc_enum(2, "protocol");
	proto = protos[pi];
	if (p == 2) {
		diag_l0_debug = -1;
	}
	VMC_CHECK(doopen() == 0, "open", "open failed");
	struct diag_l1_initbus_args in;
	memset(&in, 0, sizeof(in));
	in.type = DIAG_L1_INITBUS_5BAUD;
	in.addr = (uint8_t)(p == 1 && proto == DIAG_L1_ISO9141 ? vmc_enum(256, "address") : 0x33);
	dv.bit = (uint8_t)(p == 0 && proto == DIAG_L1_ISO9141 ? vmc_enum(256, "bit time") : 39);
	uint8_t kb[2] = {0xE9, 0x8F};
	if (p == 0 && pi == 2) {
		kb[0] = (uint8_t)(vmc_enum(4, "kb1") * 0x55);
		kb[1] = (uint8_t)(vmc_enum(4, "kb2") * 0x55);
	}
	mkans(dv.ans[0], 0x01, (uint8_t[]){0x7E, 0x33}, 2);
	mkans(dv.ans[1], 0x01, kb, 2);
	dv.nans = 2;
	tt_push("\x55\xAA", 2);
	devs = p > 0;
	late = vmc_dev(2, "late");
	int n0 = vmc_deviations();
	uint64_t t = env_now;
	int rv = timed(diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &in), t, 3000, "slow init");
	devs = false;
	n0 = vmc_deviations() - n0;
	vmc_outcome("%d %d", pi, rv);
	if (pi == 3) {
		bool ok = !n0 && dv.bit != 0x40;
		if (dv.bit) {
			VMC_CHECK((rv == 0) == ok && rv <= 0, "slow", "slow init with bit time %02x returned %d", dv.bit, rv);
		}
		VMC_CHECK(rv || (dv.nfr == 1 && dv.fr[0][1] == 0x20 && dv.fr[0][2] == in.addr), "slowcmd", "init frame %02x %02x", dv.fr[0][1], dv.fr[0][2]);
		if (rv == 0 && dv.bit) {
			double want = 400000.0 / dv.bit;
			VMC_CHECK(tt.speed > want * 0.94 && tt.speed < want * 1.13, "speed", "bit time %d: port set to %u", dv.bit, tt.speed);
			VMC_CHECK(dv.bit < 37 || dv.bit > 40 || tt.speed == 10400, "speed104", "bit time %d: port set to %u", dv.bit, tt.speed);
			/* pass through */
			wantspeed = tt.speed;
			uint8_t m[255], b[255];
			memset(m, 0x25, sizeof(m));
			int len = (int[]){1, 5, 15, 255}[p ? 0 : vmc_enum(4, "length")];
			VMC_CHECK(diag_l0_send(d, m, (size_t)len) == 0 && dv.nraw == len && !memcmp(dv.rawb, m, (size_t)len), "rawsend", "%d of %d bytes passed through", dv.nraw, len);
			if (late) {
				tt_push1(TT_WAIT(90));
			}
			tt_push("\x55\x08\x08", 3);
			rv = diag_l0_recv(d, b, 2, 100);
			VMC_CHECK(rv == 2 && b[0] == 0x55 && b[1] == 8, "rawrecv", "2 raw bytes read as %d", rv);
			rv = diag_l0_recv(d, b, 4, 100);
			VMC_CHECK(rv == 1 && b[0] == 8, "rawrecv", "raw byte read as %d", rv);
			rv = diag_l0_recv(d, b, 4, 100);
			VMC_CHECK(rv < 0, "rawidle", "nothing read as %d", rv);
		}
	} else {
		VMC_CHECK((rv == 0) == !n0 && rv <= 0, "slow", "slow init returned %d", rv);
		if (rv == 0) {
			VMC_CHECK(dv.nfr == 2 && dv.fr[0][1] == 0x85 && dv.fr[0][2] == 1 && dv.fr[0][3] == 0x3E && dv.fr[1][1] == 0x86, "slowcmd", "%d frames, %02x %02x", dv.nfr, dv.fr[0][1], dv.fr[1][1]);
			uint8_t b[4] = {0xEE, 0xEE, 0xEE, 0xEE};
			int how = vmc_enum(4, "reads");
			if (how == 3) {
				/* not read: gone after reopening */
				doclose();
				VMC_CHECK(doopen() == 0, "open", "open failed");
				mkans(dv.ans[0], 0x01, (uint8_t[]){1, 1}, 2);
				tt_push(dv.ans[0], 14);
				rv = diag_l0_recv(d, b, 4, 100);
				VMC_CHECK(rv == 2 && b[0] == 1 && b[1] == 1, "stale", "%d bytes %02x received after reopening", rv, b[0]);
				doclose();
				finish();
				return;
			}
			if (how == 0) {
				VMC_CHECK(diag_l0_recv(d, b, 1, 10) == 1 && diag_l0_recv(d, b + 1, 1, 10) == 1, "kb", "key bytes not reported");
			} else {
				VMC_CHECK(diag_l0_recv(d, b, how == 1 ? 2 : 4, 10) == 2, "kb", "key bytes not reported");
			}
			VMC_CHECK(b[0] == kb[0] && b[1] == kb[1] && b[2] == 0xEE, "kbvalue", "key bytes %02x %02x, device said %02x %02x", b[0], b[1], kb[0], kb[1]);
			uint8_t m[4] = {0x21, 1, 2, 3};
			dv.nfr = 0;
			dv.nans = 0;
			VMC_CHECK(diag_l0_send(d, m, 4) == 0 && dv.nfr == 1 && dv.fr[0][1] == 0x88 && dv.fr[0][2] == 4, "after", "request after slow init: command %02x", dv.fr[0][1]);
		}
	}
	/* the next session starts anew */
	doclose();
	pi = vmc_enum(4, "next protocol");
	proto = protos[pi];
	VMC_CHECK(doopen() == 0, "open", "open failed");
	uint8_t m[3] = {9, 8, 7};
	VMC_CHECK(diag_l0_send(d, m, 3) == 0 && dv.nfr == 1 && dv.fr[0][2] == 3, "reopen", "first message after reopening: %d frames", dv.nfr);
	doclose();
	finish();
}
/* any bytes from the device */
static void xany(int p) {
	begin();
	setproto(3);
	VMC_CHECK(doopen() == 0, "open", "open failed");
	static const uint8_t ty[] = {0x00, 0x01, 0x80, 0x81, 0x82, 0x84, 0x88, 0xFF};
	uint8_t a[14];
	uint8_t t = ty[vmc_enum(8, "type")];
	uint8_t x[11];
	int f = vmc_enum(6, "content");
	for (int i = 0; i < 11; i++) {
		x[i] = (uint8_t)(f == 0 ? 0 : f == 1 ? 0xFF : f == 2 ? i : f == 3 ? (i == 10) : f == 4 ? (i == 0) * 0x80 : 0x55);
	}
	int e = vmc_enum(256, "second byte");
	x[1] = (uint8_t)e;
	mkans(a, t, x, 11);
	a[0] = (uint8_t)(vmc_enum(2, "address") * 0xFF);
	tt_push(a, 14);
	uint8_t b[16];
	int rv = diag_l0_recv(d, b, 16, 100);
	vmc_outcome("%d", rv);
	if (t == 0x80) {
		VMC_CHECK(rv < 0, "error", "an error message was received as %d bytes", rv);
		bool none = e == 0x05 || e == 0x07 || e == 0x0C;
		VMC_CHECK((rv == DIAG_ERR_TIMEOUT) == none, "errkind", "device error %02x gave %d", e, rv);
	} else {
		VMC_CHECK(rv > 0 && rv <= 11 && !memcmp(b, a + 2, (size_t)rv), "any", "message received as %d", rv);
		for (int i = rv; i < 11; i++) {
			VMC_CHECK(a[2 + i] == 0, "cut", "message cut to %d bytes", rv);
		}
	}
	doclose();
	finish();
}
/* after a cut off answer, the answer after the next is read properly again */
static void xresync(int p) {
	begin();
	setproto(3);
	VMC_CHECK(doopen() == 0, "open", "open failed");
	uint8_t m[4] = {0x11, 0x22, 0x33}, b[16];
	m[3] = pi < 2 ? crc8(m, 3) : sum(m, 3);
	mkans(dv.ans[0], rtype[pi], m, 4);
	int cut = 1 + vmc_enum(13, "cut at");
	int i = 0, rv = 0;
	tt_push(dv.ans[0], (size_t)cut);
	for (i = 0; i < 4; i++) {
		rv = diag_l0_recv(d, b, 16, 100);
		VMC_CHECK(rv <= 0 || (rv == 4 && !memcmp(b, m, 4)), "resyncdata", "%d bytes received", rv);
		if (rv > 0) {
			break;
		}
		tt_push(dv.ans[0], 14);
	}
	VMC_CHECK(i < 4, "resync", "no answer is read after one was cut off at %d bytes", cut);
	doclose();
	finish();
}
static void xargs(int p) {
	begin();
	setproto(4);
	VMC_CHECK(doopen() == 0, "open", "open failed");
	uint8_t b[4];
	VMC_CHECK(diag_l0_recv(d, b, 0, 10) < 0, "badlen", "receive of 0 bytes accepted");
	VMC_CHECK(diag_l0_ioctl(d, DIAG_IOCTL_IFLUSH, NULL) == 0, "iflush", "flush failed");
	struct diag_serial_settings set = {10400, diag_databits_8, diag_stopbits_1, diag_par_n};
	VMC_CHECK(diag_l0_ioctl(d, DIAG_IOCTL_SETSPEED, &set) < 0 && tt.speed == 19200, "setspeed", "the bus speed changed the port");
	doclose();
	finish();
	/* running out of memory */
	env_reset();
	env_alloc_mark();
	env_alloc_fail_at = vmc_enum(8, "allocation");
	struct diag_l0_device *x = diag_l0_new("MET16");
	env_alloc_fail_at = -1;
	if (x) {
		diag_l0_del(x);
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
}

const struct vmc_scenario vmc_scenarios[] = {
	{"open", xopen, 0, 2, 4, 0, 4},
	{"send", xsend, 0, 1, 1, 0, 8},
	{"send.several", xsend, 1, 1, 2, 0, 8},
	{"send.debug", xsend, 2, 1, 1, 0, 8},
	{"recv", xrecv, 0, 0, 0, 0, 8},
	{"recv.several", xrecv, 1, 1, 2, 0, 16},
	{"recv.debug", xrecv, 2, 1, 1, 0, 8},
	{"recv.many", xmany, 0, 0, 0, 0, 8},
	{"slow", xslow, 0, 0, 0, 0, 8},
	{"slow.fail", xslow, 1, 2, 3, 0, 16},
	{"slow.debug", xslow, 2, 1, 1, 0, 4},
	{"any", xany, 0, 0, 0, 0, 16},
	{"resync", xresync, 0, 0, 0, 0, 1},
	{"args", xargs, 0, 0, 0, 0, 1},
	{0},
};
