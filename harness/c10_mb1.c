/* C10: Mercedes Benz protocol 1.
 * oracle: [dest][command][total length][data][16 bit sum, LSB first], start automaton, one message per receive. */
#include "l2h.h"
#include "diag_tty.h"

void vmc_process_init(void) { diag_init(); }

static int failed, nspeed, ninit;
static unsigned speed;
static struct diag_l1_initbus_args ia;

static int h_ioctl(struct mock *m, unsigned cmd, void *d) {
	if (cmd == DIAG_IOCTL_SETSPEED) {
		nspeed++;
		struct diag_serial_settings *s = d;
		speed = s->speed;
		VMC_CHECK(s->databits == diag_databits_8 && s->stopbits == diag_stopbits_1 && s->parflag == diag_par_n, "serial", "serial settings");
	} else if (cmd == DIAG_IOCTL_INITBUS) {
		VMC_CHECK(nspeed == 1, "order", "bus initialised before the speed was set");
		ninit++;
		memcpy(&ia, d, sizeof(ia));
	} else {
		return MK_DEFAULT;
	}
	if (vmc_dev(2, "ioctl fails")) {
		failed = 1;
		return DIAG_ERR_GENERAL;
	}
	return 0;
}
static int failalloc(size_t n) {
	if (vmc_dev(2, "allocation fails")) {
		failed = 1;
		return 1;
	}
	return 0;
}

/* build a message; returns its length */
static int build(uint8_t *b, uint8_t dest, uint8_t cmd, const uint8_t *d, int n) {
	int o = 0;
	b[o++] = dest;
	b[o++] = cmd;
	b[o++] = (uint8_t)(n + 5);
	memcpy(b + o, d, (size_t)n);
	o += n;
	unsigned s = 0;
	for (int i = 0; i < o; i++) {
		s += b[i];
	}
	b[o++] = (uint8_t)s;
	b[o++] = (uint8_t)(s >> 8);
	return o;
}

static struct diag_l2_conn *begin(uint32_t fl, uint8_t k1, uint8_t k2, int target, unsigned rate) {
	l2h_reset(fl);
	failed = nspeed = ninit = 0;
	mk_push1(k1);
	mk_push1(k2);
	return l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_MB1, DIAG_L2_TYPE_SLOWINIT, rate, target, 0xF1);
}

static void start(int p) {
	int fl = vmc_enum(2, "capabilities") ? 0 : DIAG_L1_DOESP4WAIT;
	l2h_reset((uint32_t)fl);
	int target = (int[]){0x07, 0x00, 0xFF, 0x33}[vmc_enum(4, "target")];
	unsigned rate = (unsigned[]){0, 9600, 10400}[vmc_enum(3, "rate")];
	uint8_t kb1 = 0xC2, kb2 = 0xCD, pn[16];
	int nkb = 2, bad = 0, id = 0;
	switch (vmc_enum(5, "what")) {
	case 0: kb1 = (uint8_t)vmc_enum(256, "kb1"); break;
	case 1: kb2 = (uint8_t)vmc_enum(256, "kb2"); break;
	case 2: nkb = vmc_enum(2, "key bytes"); bad = vmc_enum(2, "silence/error"); break;
	case 3: id = vmc_enum(9, "identification"); break;
	case 4: kb1 = 0xCD; kb2 = 0xC2; break;
	}
	failed = nspeed = ninit = 0;
	mk.ioctl = h_ioctl;
	if (nkb > 0) {
		mk_push1(kb1);
	}
	if (nkb > 1) {
		mk_push1(kb2);
	} else {
		mk_push1(bad ? MK_ERR : MK_GAP);
	}
	int n = build(pn, 0xF1, 0x11, (uint8_t[]){1, 2, 3}, 3);
	switch (id) {
	case 0: break;
	case 1: mk_push(pn, (size_t)n); break;
	case 2: mk_push(pn, (size_t)n - 1); break;
	case 3: pn[n - 1] ^= 1; mk_push(pn, (size_t)n); break;
	case 4: pn[2] = 0; mk_push(pn, (size_t)n); break;
	case 5: pn[2] = 255; mk_push(pn, (size_t)n); break;
	case 6: mk_push(pn, 2); break;
	case 7: mk_push1(MK_ERR); break;
	case 8: mk_push1(MK_WAIT(900)); mk_push(pn, (size_t)n); break;
	}
	if (diag_l2_open(&mk_dl0d, DIAG_L1_ISO9141)) {
		vmc_fail("l2open", "diag_l2_open failed");
	}
	env_alloc_hook = failalloc;
	struct diag_l2_conn *d = diag_l2_StartCommunications(&mk_dl0d, DIAG_L2_PROT_MB1, DIAG_L2_TYPE_SLOWINIT, rate, (target_type)target, 0xF1);
	env_alloc_hook = NULL;
	bool want = !failed && nkb == 2 && kb1 == 0xC2 && kb2 == 0xCD;
	VMC_CHECK((d != NULL) == want, "start", "key bytes %02x %02x (%d arrived) failure %d: session %s", kb1, kb2, nkb, failed, d ? "established" : "refused");
	VMC_CHECK(mk.txn == 0, "tx", "bytes sent during the start");
	vmc_outcome("%d", d != NULL);
	if (!d) {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "failed start latched no error");
	} else {
		VMC_CHECK(nspeed == 1 && ninit == 1 && speed == (rate ? rate : 9600), "speed", "speed %u set (%d), asked for %u", speed, nspeed, rate);
		VMC_CHECK(ia.type == DIAG_L1_INITBUS_5BAUD && ia.addr == target, "init", "bus initialised for %02x", ia.addr);
		struct diag_l2_data dd;
		VMC_CHECK(diag_l2_ioctl(d, DIAG_IOCTL_GET_L2_DATA, &dd) == 0 && dd.kb1 == 0xC2 && dd.kb2 == 0xCD, "kb", "key bytes reported");
		if (id < 2 || id == 8) {
			VMC_CHECK(mk_pending() == 0, "id", "identification left unread");
		}
		int rv = diag_l2_StopCommunications(d);
		VMC_CHECK(rv == 0 && mk.txn == 0, "stop", "stop returned %d", rv);
	}
	mk.ioctl = NULL;
	l2h_close();
}

static struct diag_l2_conn *session(uint32_t fl, int target) {
	struct diag_l2_conn *c = begin(fl, 0xC2, 0xCD, target, 9600);
	VMC_CHECK(c != NULL, "start", "session refused");
	mk_cleartx();
	diag_geterr();
	return c;
}
static void finish(struct diag_l2_conn *c) {
	mk.send = NULL;
	mk_clearrx();
	env_alloc_hook = NULL;
	l2h_stop(c);
}

static int sfail;
static int h_send(struct mock *m, const uint8_t *d, size_t n) {
	if (sfail > 0 && --sfail == 0) {
		return DIAG_ERR_GENERAL;
	}
	return 1;
}
static void xsend(int p) {
	int fl = vmc_enum(3, "capabilities");
	int target = vmc_enum(2, "target") ? 0xFF : 0x07;
	int k = vmc_enum(266, "length");
	int len = k < 262 ? k : (int[]){511, 512, 1020, 1024}[k - 262];
	struct diag_l2_conn *c = session(fl == 0 ? DIAG_L1_DOESP4WAIT : fl == 1 ? 0 : DIAG_L1_HALFDUPLEX, target);
	mk.echo = fl == 2;
	int pat = vmc_enum(3, "pattern");
	uint8_t *d = malloc((size_t)len + 1);
	for (int i = 0; i < len; i++) {
		d[i] = pat == 0 ? 0xFF : pat == 1 ? (uint8_t)(i * 7 + 1) : 0;
	}
	struct diag_msg m = l2h_msg(d, (unsigned)len);
	sfail = len ? vmc_enum(2, "send fails") : 0;
	int fails = sfail;
	mk.send = h_send;
	uint64_t t = env_now;
	int rv = diag_l2_send(c, &m);
	bool ok = len >= 1 && len <= 251;
	VMC_CHECK((rv == 0) == (ok && !fails) && rv <= 0, "sendrv", "length %d: send returned %d", len, rv);
	if (ok && !fails) {
		uint8_t w[300];
		int n = build(w, (uint8_t)target, d[0], d + 1, len - 1);
		VMC_CHECK(mk.txn == (size_t)n && !memcmp(mk.tx, w, (size_t)n), "frame", "length %d: wrong frame on the wire (%zu bytes)", len, mk.txn);
		VMC_CHECK(mk.txc[0].t - t >= 55000, "p3", "sent after %llu us", (unsigned long long)(mk.txc[0].t - t));
	} else if (!ok) {
		VMC_CHECK(mk.txn == 0, "sent", "length %d: %zu bytes sent", len, mk.txn);
	}
	VMC_CHECK(rv == 0 || diag_geterr() < 0, "nolatch", "no error latched");
	vmc_outcome("%d %d", rv, len);
	free(d);
	mk.echo = false;
	finish(c);
}

/* reference receiver over the queue: payload length >= 1 or an error < 0 */
static int ref(uint8_t *out) {
	uint8_t b[256];
	int n = 0, need = 3;
	int gaps = 0;
	(void)gaps;
	for (int i = mk.qh; ; i++) {
		if (n == need) {
			if (n == 3) {
				if (b[2] < 5) {
					return -1;
				}
				need = b[2];
			} else {
				break;
			}
		}
		if (i < mk.qt && mk.q[i] & 0x8000) {
			continue;       /* not too long a pause */
		}
		if (i >= mk.qt || mk.q[i] >= 0x100) {
			return -1;      /* silence, error */
		}
		b[n++] = (uint8_t)mk.q[i];
	}
	unsigned s = 0;
	for (int i = 0; i < n - 2; i++) {
		s += b[i];
	}
	if (b[n - 2] != (uint8_t)s || b[n - 1] != (uint8_t)(s >> 8)) {
		return -1;
	}
	out[0] = b[1];
	memcpy(out + 1, b + 3, (size_t)n - 5);
	return n - 4;
}

static uint8_t w[300];
static int h_req(struct mock *m, const uint8_t *d, size_t n) {
	return 1;
}
static void receive(struct diag_l2_conn *c, bool faults) {
	int n = ref(w);
	int how = vmc_enum(3, "recv/no callback/request");
	int rv;
	uint64_t t = env_now;
	if (faults) {
		env_alloc_hook = failalloc;
	}
	if (how < 2) {
		rv = diag_l2_recv(c, 500, how ? NULL : l2h_cb, &ngot);
	} else {
		uint8_t d[] = {0x30, 1};
		struct diag_msg m = l2h_msg(d, 2);
		mk.send = h_req;
		int err = 0;
		struct diag_msg *r = diag_l2_request(c, &m, &err);
		VMC_CHECK((r != NULL) == (err == 0) && err <= 0, "errval", "%s with error %d", r ? "answer" : "no answer", err);
		rv = err;
		if (r) {
			l2h_cb(&ngot, r);
			diag_freemsg(r);
		}
	}
	env_alloc_hook = NULL;
	VMC_CHECK(env_now - t < 10000000, "slow", "took %llu us", (unsigned long long)(env_now - t));
	bool ok = n > 0 && !failed;
	VMC_CHECK((rv == 0) == ok && rv <= 0, "recvrv", "expected %s, got %d", ok ? "a message" : "an error", rv);
	VMC_CHECK(ncb == (ok && how != 1), "ncb", "%d messages delivered", ncb);
	if (ncb) {
		VMC_CHECK(got[0].len == (unsigned)n && !memcmp(got[0].d, w, (size_t)n), "payload", "payload of %d bytes delivered as %u", n, got[0].len);
		VMC_CHECK((got[0].fmt & DIAG_FMT_FRAMED) != 0, "fmt", "format %02x", got[0].fmt);
	}
	VMC_CHECK(rv == 0 || diag_geterr() < 0, "nolatch", "%d: no error latched", rv);
	vmc_outcome("%d", rv);
}

static void frames(int p) {
	struct diag_l2_conn *c = session(DIAG_L1_DOESP4WAIT, 0x07);
	int k = vmc_enum(3, "kind");
	uint8_t b[300], d[256];
	int n = 0;
	for (int i = 0; i < 256; i++) {
		d[i] = (uint8_t)(0xFE - i * 3);
	}
	bool faults = false;
	if (k == 0) {
		/* every length, then what */
		n = vmc_enum(251, "payload");
		n = build(b, 0xF1, 0x41, d, n);
		int cut = vmc_enum(4, "cut");
		if (cut) {
			n -= cut == 1 ? 1 : cut == 2 ? 2 : n - 3;
		}
		mk_push(b, (size_t)n);
		if (vmc_enum(2, "then")) {
			mk_push1(0x55);
		}
	} else if (k == 1) {
		/* every value of every byte */
		n = build(b, 0xF1, 0x41, d, 3);
		b[vmc_enum(n, "position")] = (uint8_t)vmc_enum(256, "value");
		mk_push(b, (size_t)n);
		if (vmc_enum(2, "then")) {
			for (int i = 0; i < 260; i++) {
				mk_push1((uint16_t)(uint8_t)(i * 5));
			}
		}
	} else {
		/* silences, errors, short reads, flips */
		n = build(b, 0xF1, 0x41, d, vmc_enum(4, "payload"));
		if (vmc_enum(2, "late"))
			mk_push1(MK_WAIT(480));
		for (int i = 0; i < n; i++) {
			int f = vmc_dev(6, "line");
			switch (f) {
			case 5: mk_push1(MK_WAIT(20)); mk_push1(b[i]); break;
			case 0: mk_push1(b[i]); break;
			case 1: mk_push1(MK_GAP); mk_push1(b[i]); break;
			case 2: mk_push1(MK_ERR); mk_push1(b[i]); break;
			case 3: break;
			case 4: mk_push1(b[i] ^ 0x80); break;
			}
		}
		mk.seg = 2;
		faults = true;
	}
	receive(c, faults);
	finish(c);
}
static void strings(int p) {
	static const uint16_t al[] = {0x00, 0x05, 0x06, 0x01, 0x0A, 0x04, 0xFF, MK_GAP};
	struct diag_l2_conn *c = session(DIAG_L1_DOESP4WAIT, 0x07);
	int n = vmc_enum(p + 1, "length");
	for (int i = 0; i < n; i++) {
		mk_push1(al[vmc_enum(8, "symbol")]);
	}
	receive(c, false);
	finish(c);
}

static void keepalive(int p) {
	diag_end();
	diag_init();
	struct diag_l2_conn *c = session(DIAG_L1_DOESP4WAIT, 0x07);
	uint64_t last = env_now;
	uint8_t d[] = {0x30, 1};
	struct diag_msg m = l2h_msg(d, 2);
	uint8_t ans[16];
	int n = build(ans, 0xF1, 0x50, d, 1);
	mk_push(ans, (size_t)n);
	int err;
	struct diag_msg *r = diag_l2_request(c, &m, &err);
	VMC_CHECK(r != NULL, "req", "request failed (%d)", err);
	diag_freemsg(r);
	last = env_now;
	int sent = 0;
	/* where the timer's ticks fall */
	env_now += (uint64_t)vmc_enum(10, "phase") * 30000;
	for (int i = 0; i < 20; i++) {
		mk_cleartx();
		mk_clearrx();
		switch (vmc_dev(4, "answer")) {
		case 0: mk_push(ans, (size_t)n); break;
		case 1: break;
		case 2: mk_push1(MK_ERR); break;
		case 3: mk_push1(0); mk_push1(0); mk_push1(0xFF); break;
		}
		env_now += 300000;
		uint64_t idle = env_now - last;
		env_timer_fire();
		/* the ECU ends the session after one idle second */
		VMC_CHECK(idle < 1000000, "idle", "idle for %llu us and no idle message sent", (unsigned long long)idle);
		if (mk.txn) {
			uint8_t w2[8];
			int k = build(w2, 0x07, 0x50, (uint8_t[]){1}, 1);
			VMC_CHECK(mk.txn == (size_t)k && !memcmp(mk.tx, w2, (size_t)k), "idle", "the idle message is wrong");
			sent++;
			last = env_now;
		}
	}
	VMC_CHECK(sent >= 3, "idle", "%d idle messages in 6 s", sent);
	vmc_outcome("%d", sent);
	finish(c);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"start", start, 0, 1, 2, 0, 4},
	{"send", xsend, 0, 0, 0, 0, 4},
	{"frames", frames, 0, 2, 3, 0, 4},
	{"strings", strings, 5, 0, 0, 0, 8},
	{"strings-deep", strings, 6, 0, 0, VMC_THOROUGH_ONLY, 8},
	{"keepalive", keepalive, 0, 1, 2, 0, 1},
	{0}
};
