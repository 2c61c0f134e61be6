/* C09: Volvo D2 over K-line.
 * oracle: frame [80+len+1][dest][src] payload [sum]; start automaton; busy (7E xx 23) automaton. */
#include "l2h.h"
#include "diag_tty.h"

void vmc_process_init(void) { diag_init(); }

#define CAP (DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESFULLINIT | DIAG_L1_DOESP4WAIT)

static uint8_t kb1, kb2;
static int nspeed, nwm, ninit, nflush, failed;
static unsigned speed;
static uint8_t wm[16];
static unsigned wmlen;
static int order, initpos, wmpos, spos;
static struct diag_l1_initbus_args ia;

static int h_ioctl(struct mock *m, unsigned cmd, void *d) {
	switch (cmd) {
	case DIAG_IOCTL_SETSPEED:
		nspeed++;
		spos = ++order;
		speed = ((struct diag_serial_settings *)d)->speed;
		break;
	case DIAG_IOCTL_SETWM: {
		struct diag_msg *w = d;
		nwm++;
		wmpos = ++order;
		wmlen = w->len;
		memcpy(wm, w->data, w->len < 16 ? w->len : 16);
		break;
	}
	case DIAG_IOCTL_INITBUS:
		ninit++;
		initpos = ++order;
		memcpy(&ia, d, sizeof(ia));
		break;
	case DIAG_IOCTL_IFLUSH:
		nflush++;
		return 0;
	default:
		return MK_DEFAULT;
	}
	if (vmc_dev(2, "ioctl fails")) {
		failed = 1;
		return DIAG_ERR_GENERAL;
	}
	if (cmd == DIAG_IOCTL_INITBUS) {
		((struct diag_l1_initbus_args *)d)->kb1 = kb1;
		((struct diag_l1_initbus_args *)d)->kb2 = kb2;
	}
	return 0;
}
static int failalloc(size_t n) {
	if (vmc_dev(2, "allocation fails")) {
		failed = 1;
		return 1;
	}
	return 0;
}

static void init(uint32_t flags, uint8_t k1, uint8_t k2) {
	l2h_reset(flags);
	kb1 = k1;
	kb2 = k2;
	nspeed = nwm = ninit = nflush = failed = order = 0;
	mk.ioctl = h_ioctl;
}

static void start(int p) {
	static const uint32_t caps[] = {CAP, CAP | DIAG_L1_DOESKEEPALIVE, CAP & ~DIAG_L1_DOESFULLINIT, CAP & ~DIAG_L1_DOESL2CKSUM, DIAG_L1_DOESL2FRAME};
	static const uint8_t tg[] = {0x7A, 0x6E, 0x01, 0x10, 0x00, 0xFF, 0x51, 0x80};
	int c = vmc_enum(5, "capabilities");
	int type = vmc_enum(5, "init type");
	static const flag_type types[] = {DIAG_L2_TYPE_SLOWINIT, DIAG_L2_TYPE_FASTINIT, DIAG_L2_TYPE_MONINIT, 7, DIAG_L2_TYPE_SLOWINIT | DIAG_L2_TYPE_FUNCADDR};
	uint8_t k1 = 0xD3, k2 = 0xB0;
	int target = 0x7A, source = 0x13;
	unsigned rate = 0;
	if (c < 2 && type == 0) {
		switch (vmc_enum(4, "what")) {
		case 0: k1 = (uint8_t)vmc_enum(256, "kb1"); break;
		case 1: k2 = (uint8_t)vmc_enum(256, "kb2"); break;
		case 2: k1 = (uint8_t)vmc_enum(256, "kb"); k2 = k1; break;
		case 3:
			target = tg[vmc_enum(8, "target")];
			source = vmc_enum(3, "source") * 0x7B + 0x13;
			source &= 0xFF;
			rate = vmc_enum(2, "rate") * 9600;
			break;
		}
	}
	init(caps[c], k1, k2);
	if (diag_l2_open(&mk_dl0d, DIAG_L1_ISO9141)) {
		vmc_fail("l2open", "diag_l2_open failed");
	}
	env_alloc_hook = failalloc;
	struct diag_l2_conn *d = diag_l2_StartCommunications(&mk_dl0d, DIAG_L2_PROT_D2, types[type], rate, (target_type)target, (source_type)source);
	env_alloc_hook = NULL;
	bool kbok = (k1 == 0xD3 && k2 == 0xB0) || (k1 == 0 && k2 == 0);
	bool want = c < 2 && (type == 0 || type == 4) && kbok && !failed;
	VMC_CHECK((d != NULL) == want, "start", "cap %d type %d key bytes %02x %02x failure %d: session %s", c, type, k1, k2, failed, d ? "established" : "refused");
	VMC_CHECK(mk.txn == 0, "tx", "bytes sent during the start");
	vmc_outcome("%d %d %d", c, type, d != NULL);
	if (!d) {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "failed start latched no error");
	} else {
		VMC_CHECK(nspeed == 1 && nwm == (c == 1) && ninit == 1 && spos < initpos && (c == 0 || wmpos < initpos), "steps", "speed set %d, wakeup %d, init %d times", nspeed, nwm, ninit);
		VMC_CHECK(speed == (rate ? rate : 10400), "speed", "speed %u", speed);
		VMC_CHECK(c == 0 || (wmlen == 4 && wm[0] == 0x82 && wm[1] == target && wm[2] == source && wm[3] == 0xA1), "wm", "wakeup message %02x %02x %02x %02x (%u)", wm[0], wm[1], wm[2], wm[3], wmlen);
		int par = 0;
		for (int i = 0; i < 8; i++) {
			par ^= ia.addr >> i & 1;
		}
		VMC_CHECK(ia.type == DIAG_L1_INITBUS_5BAUD && (ia.addr & 0x7F) == (target & 0x7F) && par == 1 && ia.testerid == source, "init", "5 baud address %02x tester %02x", ia.addr, ia.testerid);
		struct diag_l2_data dd;
		VMC_CHECK(diag_l2_ioctl(d, DIAG_IOCTL_GET_L2_DATA, &dd) == 0 && dd.kb1 == 0xD3 && dd.kb2 == 0xB0, "kb", "key bytes reported %02x %02x", dd.kb1, dd.kb2);
		mk.ioctl = NULL;
		uint8_t r[] = {0x82, (uint8_t)source, (uint8_t)target, 0xE0};
		mk_push(r, 4);
		mk_push1(sum8(r, 4));
		int rv = diag_l2_StopCommunications(d);
		VMC_CHECK(rv == 0, "stop", "stop returned %d", rv);
		uint8_t w[] = {0x82, (uint8_t)target, (uint8_t)source, 0xA0};
		VMC_CHECK(mk.txn == 4 && !memcmp(mk.tx, w, 4), "stopmsg", "StopDiagnosticSession not sent");
	}
	l2h_close();
}

static struct diag_l2_conn *begin(void) {
	init(CAP, 0xD3, 0xB0);
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_D2, DIAG_L2_TYPE_SLOWINIT, 10400, 0x7A, 0x13);
	if (!c || failed) {
		vmc_prune();
	}
	mk.ioctl = NULL;
	return c;
}
static void finish(struct diag_l2_conn *c) {
	mk.send = NULL;
	mk.recv = NULL;
	mk_clearrx();
	env_alloc_hook = NULL;
	l2h_stop(c);
}

static void frame(const uint8_t *p, int n, int hdrdiff, int csdiff) {
	uint8_t b[300];
	b[0] = (uint8_t)(0x80 | ((n + 1 + hdrdiff) & 0x3F));
	b[1] = 0x13;
	b[2] = 0x7A;
	memcpy(b + 3, p, (size_t)n);
	b[n + 3] = (uint8_t)(sum8(b, (size_t)n + 3) + csdiff);
	mk_push(b, (size_t)n + 4);
	mk_push1(MK_EOF);
}

static int h_fail(struct mock *m, const uint8_t *d, size_t n) {
	return DIAG_ERR_GENERAL;
}
static void xsend(int p) {
	struct diag_l2_conn *c = begin();
	int k = vmc_enum(77, "length");
	int len = k < 72 ? k : (int[]){127, 128, 255, 256, 1030}[k - 72];
	int dst = vmc_enum(2, "dest") * 0x51, src = vmc_enum(2, "src") * 0x33;
	int fl = vmc_enum(2, "send fails");
	uint8_t *d = malloc((size_t)len + 1);
	for (int i = 0; i < len; i++) {
		d[i] = (uint8_t)(i * 7 + 1);
	}
	struct diag_msg m = l2h_msg(d, (unsigned)len);
	m.dest = (uint8_t)dst;
	m.src = (uint8_t)src;
	if (fl) {
		mk.send = h_fail;
	}
	uint64_t t = env_now;
	int rv = diag_l2_send(c, &m);
	bool ok = len >= 1 && len <= 62;
	VMC_CHECK((rv == 0) == (ok && !fl) && rv <= 0, "sendrv", "length %d: send returned %d", len, rv);
	if (ok) {
		uint8_t w[80];
		w[0] = (uint8_t)(0x80 + len + 1);
		w[1] = (uint8_t)(dst ? dst : 0x7A);
		w[2] = (uint8_t)(src ? src : 0x13);
		memcpy(w + 3, d, (size_t)len);
		VMC_CHECK(mk.txn == (size_t)len + 3 && !memcmp(mk.tx, w, mk.txn), "frame", "length %d: wrong frame on the wire (%zu bytes)", len, mk.txn);
		VMC_CHECK(mk.txc[0].t - t >= 55000, "p3", "sent after %llu us", (unsigned long long)(mk.txc[0].t - t));
	} else {
		VMC_CHECK(mk.txn == 0, "sent", "length %d: %zu bytes sent", len, mk.txn);
	}
	VMC_CHECK(rv == 0 || diag_geterr() < 0, "nolatch", "no error latched");
	vmc_outcome("%d %d", rv, len);
	free(d);
	finish(c);
}

/* one frame in */
static void xrecv(int p) {
	struct diag_l2_conn *c = begin();
	int n = 0, hd = 0, cd = 0, cut = 0, er = 0;
	uint8_t pay[80];
	int kind = vmc_enum(6, "kind");
	switch (kind) {
	case 0: n = 1 + vmc_enum(62, "payload"); break;
	case 1: n = 1 + vmc_enum(62, "payload"); hd = 1 + vmc_enum(p ? 62 : 3, "length byte"); break;
	case 2: n = 1 + vmc_enum(6, "payload"); cd = 1 + vmc_enum(255, "checksum"); break;
	case 3: n = 1 + vmc_enum(p ? 62 : 8, "payload"); cut = 1 + vmc_enum(n + 4, "missing"); break;
	case 4: n = 63 + vmc_enum(3, "payload"); break;
	case 5: er = 1 + vmc_enum(2, "error"); break;
	}
	for (int i = 0; i < n; i++) {
		pay[i] = (uint8_t)(0xE1 + i * 11);
	}
	if (!er) {
		if (!cut && vmc_enum(2, "late")) {
			mk_push1(MK_WAIT(100));
		}
		frame(pay, n, hd, cd);
		if (cut) {
			mk.qt -= cut;
			mk.q[mk.qt - 1] = MK_EOF;
			if (cut == n + 4) {
				mk_clearrx();
			}
		}
	} else if (er == 1) {
		mk_push1(MK_ERR);
	}
	/* afterwards a good one, to be delivered by the next call */
	frame((uint8_t[]){0xE5, 0x77}, 2, 0, 0);
	if (cut == n + 4 || er == 2) {
		mk_clearrx();
	}
	bool nocb = vmc_enum(2, "callback") == 1;
	env_alloc_hook = failalloc;
	int rv = diag_l2_recv(c, 100, nocb ? NULL : l2h_cb, &ngot);
	env_alloc_hook = NULL;
	bool ok = n >= 1 && n <= 62 && !hd && !cd && !cut && !er && !failed;
	VMC_CHECK((rv == 0) == ok && rv <= 0, "recvrv", "payload %d header%+d checksum%+d missing %d error %d: recv returned %d", n, hd, cd, cut, er, rv);
	VMC_CHECK(ncb == (ok && !nocb), "ncb", "%d callbacks", ncb);
	if (ok && !nocb) {
		VMC_CHECK(ngot == 1 && got[0].len == (unsigned)n && !memcmp(got[0].d, pay, (size_t)n), "payload", "payload of %d bytes delivered as %u", n, got[0].len);
		VMC_CHECK(got[0].dest == 0x13 && got[0].src == 0x7A, "addr", "addresses");
		VMC_CHECK((got[0].fmt & DIAG_FMT_FRAMED) && !(got[0].fmt & DIAG_FMT_BADCS), "fmt", "format %02x", got[0].fmt);
	}
	VMC_CHECK(rv == 0 || diag_geterr() < 0, "nolatch", "%d: no error latched", rv);
	vmc_outcome("%d %d", kind, rv);
	if (mk_pending()) {
		ngot = ncb = 0;
		rv = diag_l2_recv(c, 100, l2h_cb, &ngot);
		VMC_CHECK(rv == 0 && ngot == 1 && got[0].len == 2 && got[0].d[1] == 0x77, "next", "the following frame was not delivered (%d)", rv);
	}
	finish(c);
}

/* requests */
#define NK 12
static int nreq, e_ok, e_len;
static uint8_t e_pay[64];
static int left;
static void answers(void) {
	e_ok = 0;
	for (; left > 0; left--) {
		int a = vmc_enum(NK, "ECU answer");
		if (vmc_dev(2, "late")) {
			mk_push1(MK_WAIT(1000));
		}
		uint8_t pos[] = {0xE5, 0x10, 0x37, 0x00}, busy[] = {0x7E, 0xA5, 0x23};
		switch (a) {
		case 0: return;
		case 1: memcpy(e_pay, pos, 4); e_len = 4; frame(pos, 4, 0, 0); e_ok = 1; return;
		case 2: frame(busy, 3, 0, 0); continue;
		case 3: memcpy(e_pay, (uint8_t[]){0x7E, 0xA5, 0x12}, 3); e_len = 3; break;
		case 4: memcpy(e_pay, (uint8_t[]){0x7E, 0xA6, 0x23}, 3); e_len = 3; break;
		case 5: memcpy(e_pay, (uint8_t[]){0x7E, 0xA5}, 2); e_len = 2; break;
		case 6: memcpy(e_pay, (uint8_t[]){0x7E, 0xA5, 0x23, 0x00}, 4); e_len = 4; break;
		case 7: frame(pos, 4, -1, 0); return;
		case 8: frame(pos, 4, 0, 1); return;
		case 9: frame(busy, 3, 1, 0); return;
		case 10: mk_push1(MK_ERR); return;
		case 11: mk_push1(0x82); mk_push1(0x13); mk_push1(MK_EOF); return;
		}
		frame(e_pay, e_len, 0, 0);
		e_ok = 1;
		return;
	}
}
static int h_req(struct mock *m, const uint8_t *d, size_t n) {
	static const uint8_t w[] = {0x84, 0x7A, 0x13, 0xA5, 0x10, 0x01};
	nreq++;
	VMC_CHECK(n == 6 && !memcmp(d, w, 6), "request", "request not sent as given");
	if (vmc_dev(2, "send fails")) {
		failed = 1;
		return DIAG_ERR_GENERAL;
	}
	answers();
	return 1;
}
static void request(int p) {
	left = p;
	struct diag_l2_conn *c = begin();
	mk.send = h_req;
	nreq = 0;
	uint8_t d[] = {0xA5, 0x10, 0x01};
	struct diag_msg m = l2h_msg(d, 3);
	int err = 0x5555;
	env_alloc_hook = failalloc;
	struct diag_msg *r = diag_l2_request(c, &m, &err);
	env_alloc_hook = NULL;
	bool ok = e_ok && !failed;
	VMC_CHECK(nreq == 1, "once", "request sent %d times", nreq);
	VMC_CHECK((r != NULL) == ok, "reqrv", "expected %s, got %s (%d)", ok ? "an answer" : "none", r ? "an answer" : "none", err);
	if (r) {
		VMC_CHECK(err == 0, "errval", "answer with error %d", err);
		VMC_CHECK(r->len == (unsigned)e_len && !memcmp(r->data, e_pay, r->len) && !r->next, "answer", "the answer differs from what the ECU sent");
		VMC_CHECK(r->src == 0x7A && r->dest == 0x13, "addr", "addresses");
		diag_freemsg(r);
	} else {
		VMC_CHECK(err < 0, "errval", "no answer and error %d", err);
	}
	VMC_CHECK(d[0] == 0xA5 && d[1] == 0x10 && d[2] == 0x01 && m.len == 3, "caller", "the caller's request was changed");
	vmc_outcome("%d", err);
	finish(c);
}

/* stop: whatever the ECU answers everything is released */
static void stop(int p) {
	struct diag_l2_conn *c = begin();
	switch (vmc_enum(6, "answer")) {
	case 0: break;
	case 1: frame((uint8_t[]){0xE0}, 1, 0, 0); break;
	case 2: frame((uint8_t[]){0x7E, 0xA0, 0x23}, 3, 0, 0); break;
	case 3: frame((uint8_t[]){0x7E, 0xA0, 0x11}, 3, 0, 0); break;
	case 4: mk_push1(MK_ERR); break;
	case 5: mk.send = h_fail; break;
	}
	env_alloc_hook = failalloc;
	int rv = diag_l2_StopCommunications(c);
	env_alloc_hook = NULL;
	vmc_outcome("%d", rv);
	static const uint8_t w[] = {0x82, 0x7A, 0x13, 0xA0};
	VMC_CHECK(mk.txn == 4 && !memcmp(mk.tx, w, 4), "stopmsg", "StopDiagnosticSession not sent once");
	l2h_close();
}
static void keepalive(int p) {
	diag_end();
	diag_init();
	struct diag_l2_conn *c = begin();
	uint8_t d[] = {0xA5, 0x10, 0x01};
	struct diag_msg m = l2h_msg(d, 3);
	diag_l2_send(c, &m);
	for (int i = 0; i < 3; i++) {
		mk_cleartx();
		switch (vmc_enum(4, "answer")) {
		case 0: frame((uint8_t[]){0xE1}, 1, 0, 0); break;
		case 1: break;
		case 2: mk_push1(MK_ERR); break;
		case 3: frame((uint8_t[]){0x7E, 0xA1, 0x23}, 3, 0, 0); frame((uint8_t[]){0xE1}, 1, 0, 0); break;
		}
		env_now += 5000000;
		env_timer_fire();
		static const uint8_t w[] = {0x82, 0x7A, 0x13, 0xA1};
		VMC_CHECK(mk.txn == 4 && !memcmp(mk.tx, w, 4), "keepalive", "TesterPresent not sent once (%zu bytes)", mk.txn);
		VMC_CHECK(mk_pending() == 0, "kaleft", "the answer to the keep-alive was not read");
	}
	frame((uint8_t[]){0xE5, 0x55}, 2, 0, 0);
	int err = 0;
	struct diag_msg *r = diag_l2_request(c, &m, &err);
	VMC_CHECK(r && r->len == 2 && r->data[1] == 0x55, "afterka", "request after the keep-alive failed (%d)", err);
	diag_freemsg(r);
	vmc_outcome("done");
	finish(c);
}

/* sessions with two ECUs, one after the other: what happened before makes no difference */
static uint8_t hreq[8];
static int hreqn, hop, hn;
static uint8_t htgt, hsrc, hans[64];
static int hansn;
static void hframe(const uint8_t *p, int n, int csdiff) {
	uint8_t b[80];
	b[0] = (uint8_t)(0x80 | (n + 1));
	b[1] = hsrc;
	b[2] = htgt;
	memcpy(b + 3, p, (size_t)n);
	b[n + 3] = (uint8_t)(sum8(b, (size_t)n + 3) + csdiff);
	mk_push(b, (size_t)n + 4);
	mk_push1(MK_EOF);
}
static int h_hist(struct mock *m, const uint8_t *d, size_t n) {
	hn++;
	VMC_CHECK(n == (size_t)hreqn && !memcmp(d, hreq, n), "request", "%zu bytes sent, %02x %02x %02x %02x; not as given", n, d[0], d[1], d[2], d[3]);
	uint8_t busy[] = {0x7E, hreq[3], 0x23}, neg[] = {0x7E, hreq[3], 0x12};
	switch (hop) {
	case 1: hframe(busy, 3, 0); hframe(busy, 3, 0); /* fall through */
	case 0: hframe(hans, hansn, 0); break;
	case 3: hframe(hans, hansn, 1); break;
	case 4: memcpy(hans, neg, hansn = 3); hframe(neg, 3, 0); break;
	}
	return 1;
}
static void history(int steps) {
	init(CAP, 0xD3, 0xB0);
	struct diag_l2_conn *c;
	static const uint8_t tg[2] = {0x7A, 0x51}, sr[2] = {0x13, 0x2B};
	int k = 0;
	c = l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_D2, DIAG_L2_TYPE_SLOWINIT, 10400, tg[0], sr[0]);
	if (failed) {
		vmc_prune();
	}
	VMC_CHECK(c, "start", "the session was refused");
	mk.ioctl = NULL;
	for (int i = 0; i < steps; i++) {
		if (vmc_enum(2, "other ECU")) {
			mk.send = NULL;
			VMC_CHECK(diag_l2_StopCommunications(c) == 0, "stop", "StopCommunications failed");
			mk_clearrx();
			k = !k;
			mk.ioctl = h_ioctl;
			c = diag_l2_StartCommunications(&mk_dl0d, DIAG_L2_PROT_D2, DIAG_L2_TYPE_SLOWINIT, 10400, tg[k], sr[k]);
			VMC_CHECK(c, "start", "the session was refused");
			mk.ioctl = NULL;
		}
		int op = vmc_enum(9, "operation");
		htgt = tg[k];
		hsrc = sr[k];
		hop = op;
		hn = 0;
		mk_clearrx();
		mk_cleartx();
		mk.send = h_hist;
		uint8_t d[4] = {(uint8_t)(0xA5 + i), (uint8_t)(i * 3), 0x01, 0};
		int len = 1 + (i + op) % 3;
		struct diag_msg m = l2h_msg(d, (unsigned)len);
		if (op == 5) {
			htgt = m.dest = 0x33;
			hsrc = m.src = 0xF1;
		}
		hreq[0] = (uint8_t)(0x80 + len + 1);
		hreq[1] = htgt;
		hreq[2] = hsrc;
		memcpy(hreq + 3, d, (size_t)len);
		hreqn = len + 3;
		hansn = op == 8 ? 62 : 1 + (i * 5 + k) % 6;
		for (int j = 0; j < hansn; j++) {
			hans[j] = (uint8_t)(0xE5 + i * 16 + j * 3 + k);
		}
		if (op < 5) {
			int err = 0x5555;
			struct diag_msg *r = diag_l2_request(c, &m, &err);
			VMC_CHECK(hn == 1, "once", "request sent %d times", hn);
			VMC_CHECK((r != NULL) == (op != 2 && op != 3), "reqrv", "request %d gave %s (%d)", op, r ? "an answer" : "none", err);
			if (r) {
				VMC_CHECK(err == 0 && r->len == (unsigned)hansn && !memcmp(r->data, hans, r->len) && !r->next && r->src == htgt && r->dest == hsrc, "answer", "the answer differs from what the ECU sent");
				diag_freemsg(r);
			} else {
				VMC_CHECK(err == (op == 2 ? DIAG_ERR_TIMEOUT : DIAG_ERR_BADCSUM), "errval", "request %d gave error %d", op, err);
			}
		} else if (op == 5) {
			VMC_CHECK(diag_l2_send(c, &m) == 0 && hn == 1, "sendrv", "not sent");
		} else {
			ngot = ncb = 0;
			if (op != 7) {
				hframe(hans, hansn, 0);
			}
			int rv = diag_l2_recv(c, 100, l2h_cb, &ngot);
			VMC_CHECK(rv == (op == 7 ? DIAG_ERR_TIMEOUT : 0) && ncb == (op != 7), "recvrv", "recv returned %d, %d callbacks", rv, ncb);
			VMC_CHECK(op == 7 || (got[0].len == (unsigned)hansn && !memcmp(got[0].d, hans, got[0].len) && got[0].src == htgt && got[0].dest == hsrc), "payload", "the message differs from what the ECU sent");
		}
		VMC_CHECK(mk_pending() == 0, "left", "part of the answer was not read");
		struct diag_l2_data dd;
		VMC_CHECK(diag_l2_ioctl(c, DIAG_IOCTL_GET_L2_DATA, &dd) == 0 && dd.kb1 == 0xD3 && dd.kb2 == 0xB0, "l2data", "key bytes %02x %02x", dd.kb1, dd.kb2);
	}
	mk.send = NULL;
	mk_cleartx();
	mk_clearrx();
	hframe((uint8_t[]){0xE0}, 1, 0);
	VMC_CHECK(diag_l2_StopCommunications(c) == 0, "stop", "StopCommunications failed");
	VMC_CHECK(mk.txn == 4 && mk.tx[1] == tg[k] && mk.tx[2] == sr[k] && mk.tx[3] == 0xA0, "stopmsg", "StopDiagnosticSession not sent to the ECU");
	vmc_outcome("done");
	l2h_close();
}

const struct vmc_scenario vmc_scenarios[] = {
	{"history", history, 3, 0, 0, 0, 2},
	{"history-deep", history, 4, 0, 0, VMC_THOROUGH_ONLY, 2},
	{"start", start, 0, 1, 2, 0, 4},
	{"send", xsend, 0, 0, 0, 0, 4},
	{"recv", xrecv, 0, 1, 1, 0, 4},
	{"recv-all", xrecv, 1, 0, 0, 0, 4},
	{"request", request, 4, 1, 2, 0, 4},
	{"request-deep", request, 6, 1, 2, 0, 4},
	{"stop", stop, 0, 1, 2, 0, 1},
	{"keepalive", keepalive, 0, 0, 0, 0, 1},
	{0}
};
