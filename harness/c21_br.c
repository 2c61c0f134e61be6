/* C21: the BR-1 driver against a model of the device.
 * oracle: the blocks the device received, and the data it sent. */
#include "ttyh.h"

void vmc_process_init(void) { diag_init(); }

static struct diag_l0_device *d;
static int proto;
static bool j1850, devs, ttyfailed;

/* ---------------- the device */
static struct {
	int st;                 /* bytes of a command so far */
	uint8_t b[20];
	bool connected;
	int nblk;               /* data blocks received */
	uint8_t blk[64][20];
	int blklen[64];
	int ninit;
	uint8_t init[20];
	int initlen;
	int nkb;
	uint8_t kb[2];
	int nframes;            /* frames of the answer (J1850) */
	uint8_t fr[4][16];
	int frl[4];
	int conflicts;          /* bus conflicts before the next answer */
	bool always;            /* the bus is always in conflict */
	int lastk;              /* what happened to the last answer; 0: proper */
	int nconf;
} dv;

static bool late;               /* the device takes its time */
/* an answer block */
static void answer(const uint8_t *p, int n, unsigned latest) {
	int k = devs ? vmc_dev(10, "answer") : 0;
	dv.lastk = k;
	if (late) {
		tt_push1(TT_WAIT(latest));
	}
	switch (k) {
	case 0:
		tt_push1((uint16_t)n);
		tt_push(p, (size_t)n);
		return;
	case 1: return;                                 /* none */
	case 2:                                         /* cut short */
		tt_push1((uint16_t)n);
		tt_push(p, (size_t)n - 1);
		tt_push1(TT_GAP);
		return;
	case 3: tt_push1(0); return;                    /* empty */
	case 4: tt_push1(0x80); return;                 /* device error */
	case 5:                                         /* device error with data */
		tt_push1(0x80 | 2);
		tt_push1(1);
		tt_push1(2);
		return;
	case 6: tt_push1(TT_ERR); return;               /* port error */
	case 7:                                         /* port error within the block */
		tt_push1((uint16_t)n);
		tt_push1(TT_ERR);
		return;
	case 8: tt_push1(0xFF); return;                 /* error with missing data */
	case 9: tt_push1(0xC0); return;                 /* error and conflict */
	}
}
static void block(void) {
	int n = dv.b[0] & 0x0f;
	if (dv.b[0] & 0x40) {
		dv.ninit++;
		dv.initlen = n + 1;
		memcpy(dv.init, dv.b, (size_t)n + 1);
		answer(dv.kb, dv.nkb, (dv.b[0] & 0x0f) && dv.b[1] == 2 ? 4500 : 60);
		return;
	}
	VMC_CHECK(dv.b[0] == n && n > 0, "control", "data block with control byte %02x", dv.b[0]);
	if (dv.nblk < 64) {
		dv.blklen[dv.nblk] = n;
		memcpy(dv.blk[dv.nblk++], dv.b + 1, (size_t)n);
	}
	if (!j1850) {
		return;
	}
	if (dv.conflicts || dv.always) {
		dv.nconf++;
		if (dv.conflicts) {
			dv.conflicts--;
		}
		tt_push1(0x40);
		return;
	}
	int f = dv.b[n] - 1;
	dv.lastk = -1;
	if (f >= 0 && f < dv.nframes) {
		answer(dv.fr[f], dv.frl[f], 300);
	} else {
		tt_push1(0x80);
	}
}
static int h_write(const uint8_t *p, size_t n) {
	VMC_CHECK(tt.speed == 19200 && tt.set.databits == diag_databits_8 && tt.set.stopbits == diag_stopbits_1 && tt.set.parflag == diag_par_n, "port", "sending at %u bps", tt.speed);
	for (size_t i = 0; i < n; i++) {
		if (!dv.st && p[i] == 0x20 && !dv.connected) {
			dv.connected = true;
			if (devs) {
				int k = vmc_dev(4, "connect answer");
				dv.lastk = k;
				if (k == 1) {
					continue;
				} else if (k > 1) {
					tt_push1(k == 2 ? 0xFE : TT_ERR);
					continue;
				}
			}
			tt_push1(0xFF);
			continue;
		}
		VMC_CHECK(dv.connected, "notconnected", "byte %02x sent before connecting", p[i]);
		dv.b[dv.st++] = p[i];
		if (dv.st > (dv.b[0] & 0x0f)) {
			dv.st = 0;
			block();
		}
	}
	return 0;
}
static int h_fail(int op) {
	int k = devs && op != T_READ && op != T_IFLUSH ? vmc_dev(2 + (op == T_WRITE), "port fails") : 0;
	if (k) {
		ttyfailed = true;
		dv.st = 0;
		return k == 2 ? 1 : DIAG_ERR_GENERAL;
	}
	return 0;
}
static void begin(void) {
	env_reset();
	if (d) {
		tt.isopen = 0;
		d = NULL;
	}
	env_alloc_mark();
	tt_reset();
	memset(&dv, 0, sizeof(dv));
	devs = ttyfailed = late = false;
	dv.nkb = 1;
	dv.kb[0] = 0x08;
	dv.kb[1] = 0x94;
	tt.onwrite = h_write;
	tt.fail = h_fail;
	tt.bytetime_us = 520;
	d = diag_l0_new("BR1");
	VMC_CHECK(d, "new", "no BR1 driver instance");
	diag_geterr();
}
static void finish(void) {
	devs = false;
	diag_l0_del(d);
	d = NULL;
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
	VMC_CHECK(!tt.isopen, "portleft", "the port is left open");
}
static void doclose(void) {
	diag_l0_close(d);
	VMC_CHECK(!tt.isopen && !d->opened, "close", "close left the port open");
}
static const int protos[] = {DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_ISO9141, DIAG_L1_ISO14230};
static void setproto(int i) {
	proto = protos[i];
	j1850 = proto == DIAG_L1_J1850_VPW || proto == DIAG_L1_J1850_PWM;
}
/* 0 or the error; all reads and writes are bounded in time */
static int timed(int rv, uint64_t t, unsigned ms, const char *what) {
	VMC_CHECK(env_now - t <= ms * 1000ULL, "time", "%s took %llu ms", what, (unsigned long long)(env_now - t) / 1000);
	return rv;
}
static int doopen(void) {
	uint64_t t = env_now;
	dv.connected = false;
	dv.st = 0;
	dv.ninit = 0;
	return timed(diag_l0_open(d, proto), t, 1000, "opening");
}

static void xopen(int p) {
	begin();
	setproto(vmc_enum(4, "protocol"));
	dv.nkb = 1 + vmc_enum(vmc_thorough() ? 15 : 3, "answer length");
	uint8_t kbs[16];
	for (int i = 0; i < 16; i++) {
		kbs[i] = (uint8_t)(i + 1);
	}
	kbs[0] = (uint8_t[]){0, 1, 0x08, 0x80, 0xFF}[vmc_enum(5, "answer")];
	memcpy(dv.kb, kbs, 2);
	int nkb = dv.nkb;
	/* answer() reads nkb bytes from kb */
	static uint8_t big[16];
	memcpy(big, kbs, 16);
	dv.nkb = nkb > 2 ? 2 : nkb;
	if (p) {
		diag_l0_debug = -1;
	}
	for (int k = 0; k < 2; k++) {
		devs = true;
		ttyfailed = false;
		dv.lastk = 0;
		late = vmc_dev(2, "late");
		int n0 = vmc_deviations();
		int rv = doopen();
		devs = false;
		n0 = vmc_deviations() - n0;
		vmc_outcome("%d %d", rv, n0);
		VMC_CHECK(rv <= 0, "openrv", "open returned %d", rv);
		VMC_CHECK(n0 || rv == 0, "open", "open failed (%d)", rv);
		if (rv == 0) {
			VMC_CHECK(!ttyfailed && dv.lastk == 0, "opened", "open succeeded although the device did not answer properly");
			VMC_CHECK(tt.isopen && d->opened && dv.connected, "opened", "not connected after a successful open");
			VMC_CHECK(dv.ninit == j1850, "ninit", "%d initialisation commands", dv.ninit);
			VMC_CHECK(!j1850 || (dv.initlen == 2 && dv.init[0] == 0x41 && dv.init[1] == (proto == DIAG_L1_J1850_PWM)), "init", "initialisation command %02x %02x", dv.init[0], dv.init[1]);
			uint32_t f = diag_l0_getflags(d);
			VMC_CHECK(!!(f & DIAG_L1_DOESL2FRAME) == j1850, "flags", "flags %x", f);
			doclose();
		} else {
			VMC_CHECK(!tt.isopen && !d->opened, "failopen", "a failed open left %s", tt.isopen ? "the port open" : "the device marked open");
		}
	}
	diag_l0_debug = 0;
	finish();
}

/* 5 baud initialisation, then the key bytes, then data */
static void xslow(int p) {
	begin();
	setproto(2 + vmc_enum(2, "protocol"));
	struct diag_l1_initbus_args in;
	memset(&in, 0, sizeof(in));
	in.type = DIAG_L1_INITBUS_5BAUD;
	in.addr = (uint8_t)(p ? 0x33 : vmc_enum(256, "address"));
	dv.nkb = 1 + vmc_enum(2, "key bytes");
	dv.kb[0] = (uint8_t[]){0x08, 0x00, 0xFF, 0xE9}[vmc_enum(4, "kb1")];
	dv.kb[1] = (uint8_t[]){0x94, 0x08, 0x00}[vmc_enum(3, "kb2")];
	if (p == 2) {
		diag_l0_debug = -1;
	}
	VMC_CHECK(doopen() == 0, "open", "open failed");
	tt_push("\x55\xAA", 2);         /* stale input */
	devs = p > 0;
	late = vmc_dev(2, "late");
	int n0 = vmc_deviations();
	uint64_t t = env_now;
	int rv = timed(diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &in), t, 6500, "slow init");
	devs = false;
	n0 = vmc_deviations() - n0;
	vmc_outcome("%d", rv);
	VMC_CHECK(rv <= 0 && (n0 || rv == 0), "slowinit", "slow init returned %d", rv);
	if (rv) {
		diag_l0_debug = 0;
		doclose();
		finish();
		return;
	}
	VMC_CHECK(!ttyfailed && dv.lastk == 0, "slowok", "slow init succeeded although the device did not answer properly");
	VMC_CHECK(dv.ninit == 1 && dv.initlen == 3 && dv.init[0] == 0x42 && dv.init[1] == 2 && dv.init[2] == in.addr, "slowcmd", "init command %02x %02x %02x", dv.init[0], dv.init[1], dv.init[2]);
	uint8_t got[8];
	memset(got, 0xEE, sizeof(got));
	int split = vmc_enum(3, "reads");
	if (split == 0) {
		rv = diag_l0_recv(d, got, 1, 100);
		VMC_CHECK(rv == 1, "kb1", "first key byte: %d", rv);
		rv = diag_l0_recv(d, got + 1, 1 + (size_t)vmc_enum(2, "more"), 100);
		VMC_CHECK(rv == 1, "kb2", "second key byte: %d", rv);
	} else {
		rv = diag_l0_recv(d, got, split == 1 ? 2 : 8, 100);
		VMC_CHECK(rv == 2, "kb", "key bytes: %d", rv);
	}
	VMC_CHECK(got[0] == dv.kb[0] && got[1] == dv.kb[dv.nkb - 1] && got[2] == 0xEE, "kbvalue", "key bytes %02x %02x, device said %02x %02x", got[0], got[1], dv.kb[0], dv.kb[dv.nkb - 1]);
	/* raw data */
	uint8_t req[5] = {0xF7, 0, 1, 2, 3};
	VMC_CHECK(diag_l0_send(d, req, 1 + (size_t)vmc_enum(2, "length")) == 0 && dv.nblk == 1 && dv.blk[0][0] == 0xF7, "send", "the byte sent did not arrive");
	if (late) {
		tt_push1(TT_WAIT(90));
	}
	tt_push("\xCC\x48\x6B", 3);
	memset(got, 0xEE, sizeof(got));
	rv = diag_l0_recv(d, got, 4, 100);
	VMC_CHECK(rv == 3 && !memcmp(got, "\xCC\x48\x6B\xEE", 4), "raw", "3 raw bytes read as %d", rv);
	diag_l0_debug = 0;
	doclose();
	finish();
}

/* other initialisations */
static void xinit(int p) {
	begin();
	setproto(vmc_enum(4, "protocol"));
	dv.nkb = 1 + vmc_enum(2, "kind of device");
	VMC_CHECK(doopen() == 0, "open", "open failed");
	struct diag_l1_initbus_args in;
	memset(&in, 0, sizeof(in));
	in.type = (uint8_t)(vmc_enum(6, "type") + 1);
	if (in.type == DIAG_L1_INITBUS_5BAUD) {
		in.type = 0x55;
	}
	in.addr = 0x33;
	int before = vmc_enum(3, "sent before");
	uint8_t m[16];
	for (int i = 0; i < 16; i++) {
		m[i] = (uint8_t)(0xA0 + i);
	}
	if (before) {
		diag_l0_send(d, m, before == 1 ? 5 : 14);
		tt.qh = tt.qt = 0;
	}
	dv.ninit = dv.nblk = 0;
	int rv = diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &in);
	vmc_outcome("%d %d", in.type, rv);
	VMC_CHECK(rv <= 0, "initrv", "initbus returned %d", rv);
	VMC_CHECK(dv.ninit == 0 && dv.nblk == 0, "initsent", "something was sent");
	if (rv == 0) {
		/* fast init with the first message, whatever its pieces */
		VMC_CHECK(in.type == DIAG_L1_INITBUS_FAST, "inittype", "type %d accepted", in.type);
		static const uint8_t sc[5] = {0xC1, 0x33, 0xF1, 0x81, 0x66};
		int a = vmc_enum(7, "first piece");
		if (a < 6) {
			for (int i = 0; i < 5;) {
				int n = i ? 5 - i : a;
				n = n ? n : 5;
				rv = diag_l0_send(d, sc + i, (size_t)n);
				VMC_CHECK(rv == 0, "fast", "sending the StartComms request returned %d", rv);
				i += n;
			}
			VMC_CHECK(dv.ninit == 1 && dv.init[0] >= 0x46 && dv.init[1] == 3 && !memcmp(dv.init + 2, sc, 5), "fastcmd", "%d init commands, %02x %02x %02x...", dv.ninit, dv.init[0], dv.init[1], dv.init[2]);
		} else {
			rv = diag_l0_send(d, m, 16);
			VMC_CHECK(rv < 0 || dv.ninit == 0, "fastlong", "16 bytes for a fast init returned %d", rv);
		}
	}
	doclose();
	finish();
}

/* requests and their frames */
static void xdata(int p) {
	begin();
	bool first = p == 0;
	setproto(vmc_enum(4, "protocol"));
	VMC_CHECK(doopen() == 0, "open", "open failed");
	int len = first ? vmc_enum(19, "length") : 1 + vmc_enum(2, "length") * 6;
	if (len > 16) {
		len = len == 17 ? 255 : 1024;
	}
	uint8_t *m = malloc((size_t)len);
	for (int i = 0; i < len; i++) {
		m[i] = (uint8_t)(0x61 + i * 13);
	}
	int nreq = first ? 1 : 2;
	dv.nframes = first ? 1 : 1 + vmc_enum(3, "frames");
	for (int i = 0; i < dv.nframes; i++) {
		dv.frl[i] = first ? 1 + vmc_enum(15, "frame length") : i == 0 ? (int[]){1, 4, 15}[vmc_enum(3, "frame length")] : 4 + i;
		for (int j = 0; j < dv.frl[i]; j++) {
			dv.fr[i][j] = (uint8_t)(0x10 * i + j + 0x81);
		}
	}
	if (p == 2) {
		diag_l0_debug = -1;
	}
	for (int r = 0; r < nreq; r++) {
		dv.nblk = 0;
		dv.nconf = 0;
		dv.st = 0;
		ttyfailed = false;
		dv.lastk = -1;
		tt.qh = tt.qt = 0;
		m[0] = (uint8_t)(m[0] + r);
		dv.conflicts = first ? 0 : vmc_dev(2, "conflict") ? 1 + vmc_dev(2, "two conflicts") : 0;
		devs = true;
		late = vmc_dev(2, "late");
		int n0 = vmc_deviations();
		int rv = diag_l0_send(d, m, (size_t)len);
		bool fits = len > 0 && len <= (j1850 ? 14 : 15);
		VMC_CHECK(rv <= 0 && (rv == 0 || !fits || ttyfailed), "send", "sending %d bytes returned %d", len, rv);
		if (!fits) {
			VMC_CHECK(rv < 0 && dv.nblk == 0, "toolong", "sending %d bytes returned %d", len, rv);
			continue;
		}
		if (rv) {
			devs = false;
			if (first || j1850) {
				/* the rest of the exchange is undefined */
				break;
			}
			continue;
		}
		VMC_CHECK(!ttyfailed, "sendok", "sending succeeded although the port failed");
		VMC_CHECK(dv.nblk == 1 && dv.blklen[0] == len + j1850 && !memcmp(dv.blk[0], m, (size_t)len) && (!j1850 || dv.blk[0][len] == 1), "block", "%d blocks, length %d", dv.nblk, dv.blklen[0]);
		if (!j1850) {
			/* pass through */
			int n = first ? 0 : 1 + vmc_enum(3, "bytes");
			if (late) {
				tt_push1(TT_WAIT(40));
			}
			tt_push(dv.fr[0], (size_t)n);
			uint8_t b[4] = {0xEE, 0xEE, 0xEE, 0xEE};
			size_t L = 1 + (size_t)vmc_enum(4, "read length");
			rv = diag_l0_recv(d, b, L, 50);
			devs = false;
			int want = n < (int)L ? n : (int)L;
			VMC_CHECK(want ? rv == want && !memcmp(b, dv.fr[0], (size_t)want) : rv < 0, "rawread", "read of %zu bytes with %d waiting returned %d", L, n, rv);
			continue;
		}
		/* every frame in order, each as one block, in pieces if asked so */
		bool failed = false;
		for (int f = 0; f <= dv.nframes && !failed; f++) {
			int off = 0;
			size_t L = 0;
			int l = f < dv.nframes ? dv.frl[f] : 0;
			do {
				if (!off) {
					L = (size_t[]){MAXRBUF, 1, 3, 15}[f == dv.nframes ? 0 : vmc_enum(r ? 2 : 4, "read length")];
				}
				uint8_t *b = malloc(L);
				memset(b, 0xEE, L);
				int blk0 = dv.nblk;
				int cf = dv.nconf;
				int nd = vmc_deviations();
				uint64_t t = env_now;
				rv = timed(diag_l0_recv(d, b, L, 100), t, 2000, "receiving");
				nd = vmc_deviations() - nd;
				VMC_CHECK(rv != 0 && rv <= (int)L, "recvrv", "receive returned %d", rv);
				cf = dv.nconf - cf;
				for (int i = blk0; i < dv.nblk; i++) {
					VMC_CHECK(dv.blklen[i] == len + 1 && !memcmp(dv.blk[i], m, (size_t)len) && dv.blk[i][len] == f + 1, "again", "request for frame %d repeated as %d bytes %02x.. for frame %d", f + 1, dv.blklen[i] - 1, dv.blk[i][0], dv.blk[i][dv.blklen[i] - 1]);
				}
				if (rv > 0) {
					VMC_CHECK(l - off == (rv < (int)L ? rv : l - off) && rv <= l - off && !memcmp(b, dv.fr[f] + off, (size_t)rv), "frame", "frame %d: %d bytes at %d of %d", f + 1, rv, off, l);
					VMC_CHECK(dv.lastk == 0, "frameok", "data although the device answered otherwise (%d)", dv.lastk);
					off += rv;
				} else {
					failed = true;
					VMC_CHECK(f == dv.nframes || dv.lastk > 0 || ttyfailed, "frame", "frame %d of %d bytes gave error %d", f + 1, l, rv);
				}
				free(b);
			} while (!failed && off < l);
		}
		devs = false;
		n0 = vmc_deviations() - n0;
		vmc_outcome("%d %d", rv, n0);
		if (first) {
			VMC_CHECK(n0 || failed, "phantom", "a frame the device does not have was received");
		}
	}
	free(m);
	diag_l0_debug = 0;
	doclose();
	finish();
}
/* a bus that never gets free; close with data unread, open again */
static void xbusy(int p) {
	begin();
	setproto(vmc_enum(2, "protocol"));
	VMC_CHECK(doopen() == 0, "open", "open failed");
	uint8_t m[6] = {0x68, 0x6A, 0xF1, 1, 0, 0x17};
	uint8_t b[20];
	dv.nframes = 1;
	dv.frl[0] = 6;
	memcpy(dv.fr[0], "\x48\x6B\x10\x41\x00\x42", 6);
	if (vmc_enum(2, "what") == 0) {
		dv.always = true;
		VMC_CHECK(diag_l0_send(d, m, 6) == 0, "send", "send failed");
		uint64_t t = env_now;
		int rv = timed(diag_l0_recv(d, b, 20, 5000), t, 60000, "receiving");
		VMC_CHECK(rv < 0 && dv.nblk <= 64, "busy", "receive from a busy bus returned %d", rv);
	} else {
		VMC_CHECK(diag_l0_send(d, m, 6) == 0, "send", "send failed");
		int n = 1 + vmc_enum(5, "bytes read");
		VMC_CHECK(diag_l0_recv(d, b, (size_t)n, 100) == n, "recv", "receive failed");
		doclose();
		VMC_CHECK(doopen() == 0, "open", "second open failed");
		memcpy(dv.fr[0], "\x01\x02\x03\x04\x05\x06", 6);
		VMC_CHECK(diag_l0_send(d, m, 6) == 0, "send", "send failed");
		int rv = diag_l0_recv(d, b, 20, 100);
		VMC_CHECK(rv == 6 && !memcmp(b, dv.fr[0], 6), "stale", "%d bytes %02x... received after reopening", rv, b[0]);
	}
	doclose();
	finish();
}
/* an initialisation whose key bytes were not read does not outlive the session */
static void xstale(int p) {
	begin();
	setproto(2 + vmc_enum(2, "protocol"));
	VMC_CHECK(doopen() == 0, "open", "open failed");
	struct diag_l1_initbus_args in;
	memset(&in, 0, sizeof(in));
	in.type = DIAG_L1_INITBUS_5BAUD;
	uint8_t b[4];
	VMC_CHECK(diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &in) == 0, "slowinit", "slow init failed");
	if (vmc_enum(2, "read one")) {
		VMC_CHECK(diag_l0_recv(d, b, 1, 10) == 1, "kb1", "no key byte");
	}
	doclose();
	VMC_CHECK(doopen() == 0, "open", "second open failed");
	tt_push("\x11\x22\x33", 3);
	VMC_CHECK(diag_l0_recv(d, b, 4, 10) == 3 && b[0] == 0x11, "stale", "byte %02x received after reopening", b[0]);
	doclose();
	finish();
}
static void xargs(int p) {
	begin();
	setproto(vmc_enum(4, "protocol"));
	VMC_CHECK(doopen() == 0, "open", "open failed");
	uint8_t b[4];
	VMC_CHECK(diag_l0_recv(d, b, 0, 10) < 0, "badlen", "receive of 0 bytes accepted");
	VMC_CHECK(diag_l0_send(d, b, 0) < 0, "badlen", "sending 0 bytes accepted");
	VMC_CHECK(diag_l0_ioctl(d, DIAG_IOCTL_IFLUSH, NULL) == 0, "iflush", "flush failed");
	struct diag_serial_settings set = {10400, diag_databits_8, diag_stopbits_1, diag_par_n};
	VMC_CHECK(diag_l0_ioctl(d, DIAG_IOCTL_SETSPEED, &set) < 0 && tt.speed == 19200, "setspeed", "the bus speed changed the port");
	/* nothing comes from an idle ISO bus */
	if (!j1850) {
		uint64_t t = env_now;
		int rv = timed(diag_l0_recv(d, b, 4, 100), t, 200, "receiving");
		VMC_CHECK(rv < 0, "idle", "receive from an idle bus returned %d", rv);
		tt_push("\x01\x02", 2);
		VMC_CHECK(diag_l0_recv(d, b, 4, 100) == 2 && b[0] == 1 && b[1] == 2, "raw", "raw bytes lost");
	}
	doclose();
	finish();
}
/* any bytes at all from the device */
static void xany(int p) {
	begin();
	setproto(p ? vmc_enum(2, "protocol") : 2);
	int what = p;
	static const uint8_t al[] = {0x00, 0x01, 0x02, 0x0F, 0x10, 0x20, 0x40, 0x41, 0x80, 0x81, 0xC1, 0xFF};
	VMC_CHECK(doopen() == 0, "open", "open failed");
	uint8_t m[3] = {1, 2, 3}, b[20];
	dv.st = 0;
	dv.nframes = 0;
	tt.onwrite = NULL;
	if (what) {
		VMC_CHECK(diag_l0_send(d, m, 3) == 0, "send", "send failed");
		tt.qh = tt.qt = 0;
	}
	int n = vmc_enum(vmc_thorough() ? 6 : 5, "bytes");
	uint8_t s[24];
	int z = vmc_enum(2, "filled up") ? 20 : n;
	for (int i = 0; i < z; i++) {
		s[i] = i < n ? al[vmc_enum(12, "byte")] : (uint8_t)i;
	}
	if (!what) {
		tt.keep = true;
	}
	tt_push(s, (size_t)z);
	/* reference */
	int i = 0, want = 0;
	uint8_t *w = NULL;
	for (;;) {
		if (i >= z) {
			break;
		}
		int c = s[i++], l = c & 15;
		if (i + l > z || (c & 0x80) || (!(c & 0x40) && !l)) {
			break;
		}
		if (c & 0x40) {
			i += l;
			if (!what) {
				break;
			}
			continue;
		}
		want = l;
		w = s + i;
		break;
	}
	uint64_t t = env_now;
	if (what) {
		int rv = timed(diag_l0_recv(d, b, 20, 100), t, 3000, "receiving");
		vmc_outcome("%d", rv);
		VMC_CHECK(want ? rv == want && !memcmp(b, w, (size_t)want) : rv < 0, "any", "answer of %d bytes received as %d", want, rv);
	} else {
		struct diag_l1_initbus_args in;
		memset(&in, 0, sizeof(in));
		in.type = DIAG_L1_INITBUS_5BAUD;
		int rv = timed(diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &in), t, 7000, "slow init");
		VMC_CHECK((rv == 0 && want) || (rv < 0 && (!want || want > 2)), "anyinit", "slow init answered with %d bytes returned %d", want, rv);
		if (rv == 0) {
			rv = diag_l0_recv(d, b, 2, 10);
			VMC_CHECK(rv == 2 && b[0] == w[0] && b[1] == w[want > 1], "anykb", "key bytes %02x %02x", b[0], b[1]);
		}
	}
	tt.qh = tt.qt = 0;
	doclose();
	finish();
}

const struct vmc_scenario vmc_scenarios[] = {
	{"open", xopen, 0, 2, 3, 0, 16},
	{"open.debug", xopen, 1, 1, 1, 0, 4},
	{"slow.addr", xslow, 0, 0, 0, 0, 8},
	{"slow", xslow, 1, 2, 3, 0, 8},
	{"slow.debug", xslow, 2, 1, 1, 0, 8},
	{"init", xinit, 0, 0, 0, 0, 4},
	{"data", xdata, 0, 1, 2, 0, 32},
	{"data.frames", xdata, 1, 1, 2, 0, 64},
	{"data.debug", xdata, 2, 0, 1, 0, 16},
	{"busy", xbusy, 0, 0, 0, 0, 1},
	{"stale", xstale, 0, 0, 0, 0, 1},
	{"args", xargs, 0, 0, 0, 0, 1},
	{"any.init", xany, 0, 0, 0, 0, 16},
	{"any.data", xany, 1, 0, 0, 0, 32},
	{0},
};
